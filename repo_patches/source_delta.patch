From 6eea142170daf5e2134714fe9ad934cbd252ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:06 +0000
Subject: [PATCH 01/27] fix: look up the vectors of stored nodes in the index
 itself

The vector of a node which is neither in the vector cache nor among the last
1000 documents added by this process could not be found, so that inserts into
a collection opened after a restart (or larger than the caches) failed.
---
 pkg/hnsw/index.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..3807712 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -229,12 +229,22 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		normalizeOnRead = true
 	}
 
-	vectorCache := newShardedLockCache(cfg.VectorForIDThunk, uc.VectorCacheMaxObjects,
+	// the vectors are stored along with the nodes, only what is not found there
+	// is left to the thunk of the caller, which may know recent vectors only
+	var index *hnsw
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
+			return node.Vector, nil
+		}
+		return cfg.VectorForIDThunk(ctx, id)
+	}
+
+	vectorCache := newShardedLockCache(vectorForID, uc.VectorCacheMaxObjects,
 		cfg.Logger, normalizeOnRead, defaultDeletionInterval)
 
 	compressedVectorsCache := newCompressedShardedLockCache(uc.VectorCacheMaxObjects, cfg.Logger)
 	resetCtx, resetCtxCancel := context.WithCancel(context.Background())
-	index := &hnsw{
+	index = &hnsw{
 		maximumConnections: uc.MaxConnections,
 
 		// inspired by original paper and other implementations
-- 
2.43.0


From 74879e9b4f8ea874c09f3ccf2ff30feb89db0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:03 +0000
Subject: [PATCH 02/27] fix: vector cache has to fit node ids beyond its
 initial size

Inserting or searching a node with an id of 25000 or more panicked with an
index out of range, as the cache was never grown.
---
 pkg/hnsw/maintainance.go |  5 +++++
 pkg/hnsw/vector_cache.go | 22 ++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/maintainance.go b/pkg/hnsw/maintainance.go
index 891485a..8b74b6c 100644
--- a/pkg/hnsw/maintainance.go
+++ b/pkg/hnsw/maintainance.go
@@ -56,6 +56,11 @@ func (h *hnsw) growIndexToAccomodateNode(id uint64, logger logrus.FieldLogger) e
 	//
 	//h.nodes = newIndex
 
+	if !h.compressed.Load() {
+		// the nodes live in the kv store, but the vector cache has to fit them
+		h.cache.grow(id)
+	}
+
 	return nil
 }
 
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..9574ac2 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -72,9 +72,18 @@ func (s *shardedLockCache) all() [][]float32 {
 	return s.cache
 }
 
+// lookup does not lock, the caller has to hold the lock of the id's shard. Ids
+// beyond the size of the cache are not cached.
+func (s *shardedLockCache) lookup(id uint64) []float32 {
+	if id >= uint64(len(s.cache)) {
+		return nil
+	}
+	return s.cache[id]
+}
+
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
 	s.shardedLocks[id%shardFactor].RLock()
-	vec := s.cache[id]
+	vec := s.lookup(id)
 	s.shardedLocks[id%shardFactor].RUnlock()
 
 	if vec != nil {
@@ -111,9 +120,11 @@ func (s *shardedLockCache) handleCacheMiss(ctx context.Context, id uint64) ([]fl
 		vec = distancer.Normalize(vec)
 	}
 
-	atomic.AddInt64(&s.count, 1)
 	s.shardedLocks[id%shardFactor].Lock()
-	s.cache[id] = vec
+	if id < uint64(len(s.cache)) {
+		atomic.AddInt64(&s.count, 1)
+		s.cache[id] = vec
+	}
 	s.shardedLocks[id%shardFactor].Unlock()
 
 	return vec, nil
@@ -125,7 +136,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 
 	for i, id := range ids {
 		s.shardedLocks[id%shardFactor].RLock()
-		vec := s.cache[id]
+		vec := s.lookup(id)
 		s.shardedLocks[id%shardFactor].RUnlock()
 
 		if vec == nil {
@@ -151,6 +162,9 @@ func (s *shardedLockCache) prefetch(id uint64) {
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
+	if id >= uint64(len(s.cache)) {
+		return
+	}
 	prefetchFunc(uintptr(unsafe.Pointer(&s.cache[id])))
 }
 
-- 
2.43.0


From 1ab2c4ccfe75b4b7123becb0e1c5c5f2de07b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:07 +0000
Subject: [PATCH 03/27] fix: remember visited entrypoints when the visited list
 has to grow

The list was passed by value, so that an entrypoint with an id beyond the
size of the list was visited, and returned by searches, twice.
---
 pkg/hnsw/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
-- 
2.43.0


From e698a4fd089da8deeb04a7651d51ed11d2da1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:47 +0000
Subject: [PATCH 04/27] fix: keep nodes evicted from the index cache until they
 are flushed

With more than 10000 nodes touched between two flushes, the oldest ones were
evicted before they had been written, and were lost.
---
 pkg/hnsw/index.go  | 53 +++++++++++++++++++++++++++++++++++++++++++---
 pkg/hnsw/insert.go | 39 ++++++++++++++++++++++++----------
 2 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 3807712..6fd294a 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -157,6 +157,10 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// nodes which were evicted from the indexCache before they were flushed
+	unflushed     map[uint64]*vertex
+	unflushedLock sync.Mutex
 }
 
 type CommitLogger interface {
@@ -214,7 +218,10 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 	if err := cfg.Validate(); err != nil {
 		return nil, errors.Wrap(err, "invalid config")
 	}
-	indexCache, err := lru.New(10000)
+	var index *hnsw
+	indexCache, err := lru.NewWithEvict(10000, func(_, value interface{}) {
+		index.keepUnflushed(value.(*vertex))
+	})
 	if err != nil {
 		return nil, err
 	}
@@ -231,7 +238,6 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 
 	// the vectors are stored along with the nodes, only what is not found there
 	// is left to the thunk of the caller, which may know recent vectors only
-	var index *hnsw
 	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 		if node := index.nodeByID(id); node != nil && len(node.Vector) > 0 {
 			return node.Vector, nil
@@ -285,6 +291,7 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		className:          cfg.ClassName,
 
 		indexCache: indexCache,
+		unflushed:  map[uint64]*vertex{},
 	}
 
 	index.tombstoneCleanupCycle = cyclemanager.New(
@@ -616,6 +623,9 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("Value is not a vertex.")
 			return nil
 		}
+	} else if v = h.unflushedNode(id); v != nil {
+		h.indexCache.Add(id, v)
+		return v
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
@@ -627,11 +637,48 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("nodeByID: could not Unmarshal node", err)
 			return nil
 		}
-		h.indexCache.Add(id, v)
+		// all users of a node have to share it, stick with the one which is
+		// already there if someone else was faster
+		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
+			return previous.(*vertex)
+		}
 		return v
 	}
 }
 
+// keepUnflushed makes sure that a node leaving the indexCache is not lost
+// before it is flushed
+func (h *hnsw) keepUnflushed(node *vertex) {
+	if node.TryLock() {
+		committed := node.Committed
+		node.Unlock()
+		if committed {
+			return
+		}
+	}
+	h.unflushedLock.Lock()
+	h.unflushed[node.Id] = node
+	h.unflushedLock.Unlock()
+}
+
+// unflushedNode returns a node which was evicted from the indexCache before it
+// was flushed, or nil if there is none
+func (h *hnsw) unflushedNode(id uint64) *vertex {
+	h.unflushedLock.Lock()
+	defer h.unflushedLock.Unlock()
+	return h.unflushed[id]
+}
+
+func (h *hnsw) unflushedNodes() []*vertex {
+	h.unflushedLock.Lock()
+	defer h.unflushedLock.Unlock()
+	nodes := make([]*vertex, 0, len(h.unflushed))
+	for _, node := range h.unflushed {
+		nodes = append(nodes, node)
+	}
+	return nodes
+}
+
 func (h *hnsw) Drop(ctx context.Context) error {
 	// cancel tombstone cleanup goroutine
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..524547c 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -123,19 +123,17 @@ func (h *hnsw) Flush(docCount uint64) error {
 			continue
 		}
 		node := iNode.(*vertex)
-		if node.Committed {
-			continue
-		}
-		nodeBytes, err := json.Marshal(node)
-		if err != nil {
-			return errors.Wrapf(err, "marshal node %d", node.Id)
+		if err := h.flushNode(node); err != nil {
+			return err
 		}
-		err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
-		if err != nil {
-			return errors.Wrapf(err, "put node %d", node.Id)
+	}
+	for _, node := range h.unflushedNodes() {
+		if err := h.flushNode(node); err != nil {
+			return err
 		}
-		node.Committed = true
-		h.indexCache.Add(node.Id, node)
+		h.unflushedLock.Lock()
+		delete(h.unflushed, node.Id)
+		h.unflushedLock.Unlock()
 	}
 	ep := &entrypoint{
 		ID: h.entryPointID,
@@ -163,6 +161,25 @@ func (h *hnsw) Flush(docCount uint64) error {
 	return h.commitLog.Flush()
 }
 
+// flushNode writes a node to the kv store unless it is there already
+func (h *hnsw) flushNode(node *vertex) error {
+	node.Lock()
+	defer node.Unlock()
+	if node.Committed {
+		return nil
+	}
+	nodeBytes, err := json.Marshal(node)
+	if err != nil {
+		return errors.Wrapf(err, "marshal node %d", node.Id)
+	}
+	err = h.nodes.KVPut(h.className, fmt.Sprintf("%d", node.Id), nodeBytes)
+	if err != nil {
+		return errors.Wrapf(err, "put node %d", node.Id)
+	}
+	node.Committed = true
+	return nil
+}
+
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
 	if err != nil {
-- 
2.43.0


From 7e0f38e2fa1e4c56463af3f03234ba22d31013da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:48 +0000
Subject: [PATCH 05/27] fix: do not drop matches whose distance is rounded
 below zero

The cosine distance of a vector to itself may come out slightly negative; the
best match was then left out of the results. The distances are cut to the
number of ids, too.
---
 pkg/hnsw/search_with_max_dist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..c194c6b 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -72,7 +72,8 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	i = 0
 	for _, elem := range all {
 		if elem.Dist < 0 {
-			continue
+			// rounding, e.g. of the distance of a vector to itself
+			elem.Dist = 0
 		}
 		if elem.Dist > dist {
 			break
@@ -83,5 +84,5 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
-	return out[:i], dists, nil
+	return out[:i], dists[:i], nil
 }
-- 
2.43.0


From ae0e1979e7b51b19d86900664ab517309f0ff09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:04 +0000
Subject: [PATCH 06/27] fix: load the entrypoint once, with its layer, and
 without a data race

LoadEntrypoint wrote the entrypoint under a read lock on every search, which
raced with other searches and replaced the entrypoint of a running import by
an older one, and it left the maximum layer at 0 after a restart. Searches
read both without any lock. A search in an empty collection failed.
---
 pkg/hnsw/index.go                |  3 +++
 pkg/hnsw/insert.go               | 34 +++++++++++++++++++++++---------
 pkg/hnsw/search.go               |  5 ++++-
 pkg/hnsw/search_with_max_dist.go |  8 +++++++-
 4 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 6fd294a..e9665d9 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -75,6 +75,9 @@ type hnsw struct {
 	// this point is always currentMaximumLayer
 	entryPointID uint64
 
+	// the entrypoint in memory is at least as recent as the one in the kv store
+	entryPointKnown bool
+
 	// ef parameter used in construction phases, should be higher than ef during querying
 	efConstruction int
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 524547c..5436605 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -41,7 +42,7 @@ func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
 		return nil
 	}
 	// check if vector length is the same as existing nodes
-	existingNodeVector, err := h.cache.get(context.Background(), h.entryPointID)
+	existingNodeVector, err := h.cache.get(context.Background(), h.getEntrypoint())
 	if err != nil {
 		return err
 	}
@@ -86,6 +87,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 	}
 
 	h.entryPointID = node.Id
+	h.entryPointKnown = true
 	h.currentMaximumLayer = 0
 	node.Connections = [][]uint64{
 		make([]uint64, 0, h.maximumConnectionsLayerZero),
@@ -136,15 +138,15 @@ func (h *hnsw) Flush(docCount uint64) error {
 		h.unflushedLock.Unlock()
 	}
 	ep := &entrypoint{
-		ID: h.entryPointID,
+		ID: h.getEntrypoint(),
 	}
 	epBytes, err := json.Marshal(ep)
 	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal entrypoint %d", ep.ID)
 	}
 	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "put entrypoint %d", ep.ID)
 	}
 
 	c := &count{
@@ -152,11 +154,11 @@ func (h *hnsw) Flush(docCount uint64) error {
 	}
 	cBytes, err := json.Marshal(c)
 	if err != nil {
-		return errors.Wrapf(err, "marshal count %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal count %d", docCount)
 	}
 	err = h.nodes.KVPut(h.className, countKey, cBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put count %d", h.entryPointID)
+		return errors.Wrapf(err, "put count %d", docCount)
 	}
 	return h.commitLog.Flush()
 }
@@ -183,7 +185,7 @@ func (h *hnsw) flushNode(node *vertex) error {
 func (h *hnsw) GetDocCount() (uint64, error) {
 	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
 	if err != nil {
-		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
+		return 0, errors.Wrap(err, "get count")
 	}
 
 	c := &count{}
@@ -196,11 +198,18 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
+
+	if h.entryPointKnown {
+		return nil
+	}
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
+		if !errors.Is(err, collection.ErrEntryNotFound) {
+			return errors.Wrap(err, "get entrypoint")
+		}
 		h.entryPointID = 0
 		return nil
 	}
@@ -212,6 +221,12 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
+	if node := h.nodeByID(ep.ID); node != nil {
+		node.Lock()
+		h.currentMaximumLayer = node.Level
+		node.Unlock()
+		h.entryPointKnown = true
+	}
 	return nil
 }
 
@@ -320,6 +335,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		}
 
 		h.entryPointID = nodeId
+		h.entryPointKnown = true
 		h.currentMaximumLayer = targetLevel
 	}
 	h.Unlock()
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a8c6619..41e3d54 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -467,7 +467,10 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	if h.isEmpty() {
 		return nil, nil, nil
 	}
+	h.RLock()
 	entryPointID := h.entryPointID
+	currentMaximumLayer := h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -477,7 +480,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 			"it has been flagged for cleanup and should be fixed in the next cleanup cycle")
 	}
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := currentMaximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(10)
 		eps.Insert(entryPointID, entryPointDistance)
 		res, err := h.searchLayerByVector(searchVec, eps, 1, level, nil)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index c194c6b..13d25e2 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,7 +27,13 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if h.isEmpty() {
+		return nil, nil, nil
+	}
+	h.RLock()
 	entryPointID := h.entryPointID
+	currentMaximumLayer := h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -38,7 +44,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := currentMaximumLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(1)
 		eps.Insert(entryPointID, entryPointDistance)
 		// ignore allowList on layers > 0
-- 
2.43.0


From d537a8cc367c6438ca2aeaff80ed7f97dc7419a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:12 +0000
Subject: [PATCH 07/27] fix: one index per collection, opened in one place

A collection opened by GetDocument had tables but no index, so the next add
or search panicked; concurrent first uses each opened the tables and replaced
each other's index; creating a collection again replaced the live index with
one that had not loaded its entrypoint.
---
 pkg/document/document.go | 214 +++++++++++----------------------------
 1 file changed, 60 insertions(+), 154 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..4e2bec6 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -38,6 +38,7 @@ type Config struct {
 type Client struct {
 	lock          sync.Mutex
 	hnswLock      sync.RWMutex
+	openLock      sync.Mutex
 	api           *dfs.API
 	indices       map[string]h.VectorIndex
 	pod           string
@@ -158,13 +159,6 @@ func (c *Client) CreateCollection(col *Collection) error {
 	namespacedCollection := namespace + col.Name
 	kvStore := c.podInfo.GetKVStore()
 
-	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-		// check if the document is in the cache
-		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-			return v.([]float32), nil
-		}
-		return nil, fmt.Errorf("document not found")
-	}
 	err := c.api.DocCreate(c.sessionId, c.pod, namespacedCollection, col.Indexes, true)
 	if err != nil && !errors.Is(err, collection.ErrDocumentDBAlreadyPresent) && !errors.Is(err, collection.ErrDocumentDBAlreadyOpened) {
 		return err
@@ -175,14 +169,56 @@ func (c *Client) CreateCollection(col *Collection) error {
 		return err
 	}
 
-	err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-	if err != nil && !errors.Is(err, collection.ErrDocumentDBAlreadyOpened) {
-		return err
+	_, err = c.openCollection(namespacedCollection)
+	return err
+}
+
+// openCollection opens the tables of a collection unless they are open, and
+// returns its one and only index
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
+
+	if c.sessionId == "" {
+		return nil, dfs.ErrUserNotLoggedIn
+	}
+	if c.podInfo == nil {
+		return nil, dfs.ErrPodNotOpen
 	}
 
-	err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+	kvStore := c.podInfo.GetKVStore()
+	_, err := kvStore.KVCount(namespacedCollection)
 	if err != nil {
-		return err
+		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	if err != nil {
+		return nil, err
+	}
+	if !docIsOpen {
+		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	c.hnswLock.RLock()
+	opened, ok := c.indices[namespacedCollection]
+	c.hnswLock.RUnlock()
+	if ok {
+		return opened, nil
+	}
+
+	vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
+		// check if the document is in the cache
+		if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
+			return v.([]float32), nil
+		}
+		return nil, fmt.Errorf("document not found")
 	}
 
 	makeCL := h.MakeNoopCommitLogger
@@ -198,13 +234,17 @@ func (c *Client) CreateCollection(col *Collection) error {
 		EFConstruction: 60,
 	}, kvStore)
 	if err != nil {
-		return err
+		return nil, err
+	}
+	err = index.LoadEntrypoint()
+	if err != nil {
+		return nil, err
 	}
 
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
-	return nil
+	return index, nil
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -219,6 +259,8 @@ func (c *Client) DeleteCollection(collection string) error {
 
 	namespacedCollection := namespace + collection
 
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 	wg := sync.WaitGroup{}
 	wg.Add(2)
 	go func() {
@@ -288,54 +330,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	namespacedCollection := namespace + collection
 
 	// check if kv and doc table is open or not
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
 		count = 0
@@ -455,50 +453,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -506,9 +464,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -557,54 +512,11 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
 
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -652,16 +564,10 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	_, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, err
 	}
-	if !docIsOpen {
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, err
-		}
-	}
 
 	expr := ""
 	if property != "" && value != "" {
-- 
2.43.0


From 3c81d0efa67b845fd29dba24037cfb9fe348b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:15 +0000
Subject: [PATCH 08/27] fix: creating and deleting a collection takes effect
 when it is reported

Neither was committed to the store before it was acknowledged, a failed
delete was reported as a success, and the vectors of a collection that was
only partly deleted turned up in the next one of that name.
---
 pkg/document/document.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 4e2bec6..8d4d855 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -154,6 +154,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	if col.Indexes == nil {
+		col.Indexes = map[string]collection.IndexType{}
+	}
 	col.Indexes[hnswIndexName] = collection.NumberIndex
 
 	namespacedCollection := namespace + col.Name
@@ -164,13 +167,24 @@ func (c *Client) CreateCollection(col *Collection) error {
 		return err
 	}
 
+	isNew := err == nil
 	err = kvStore.CreateKVTable(namespacedCollection, c.podInfo.GetPodPassword(), collection.StringIndex)
+	if isNew && errors.Is(err, collection.ErrKvTableAlreadyPresent) {
+		// left behind by a collection that was only partly deleted
+		err = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if err == nil {
+			err = kvStore.CreateKVTable(namespacedCollection, c.podInfo.GetPodPassword(), collection.StringIndex)
+		}
+	}
 	if err != nil && !errors.Is(err, collection.ErrKvTableAlreadyPresent) {
 		return err
 	}
 
 	_, err = c.openCollection(namespacedCollection)
-	return err
+	if err != nil {
+		return err
+	}
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 // openCollection opens the tables of a collection unless they are open, and
@@ -247,7 +261,7 @@ func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, err
 	return index, nil
 }
 
-func (c *Client) DeleteCollection(collection string) error {
+func (c *Client) DeleteCollection(name string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	if c.sessionId == "" {
@@ -257,17 +271,19 @@ func (c *Client) DeleteCollection(collection string) error {
 		return dfs.ErrPodNotOpen
 	}
 
-	namespacedCollection := namespace + collection
+	namespacedCollection := namespace + name
 
 	c.openLock.Lock()
 	defer c.openLock.Unlock()
+	var docErr, kvErr error
 	wg := sync.WaitGroup{}
 	wg.Add(2)
 	go func() {
 		defer wg.Done()
 		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
+		if err != nil && !errors.Is(err, collection.ErrDocumentDBNotPresent) {
 			c.logger.Errorf("delete collection failed :%s\n", err.Error())
+			docErr = err
 		}
 	}()
 
@@ -276,15 +292,22 @@ func (c *Client) DeleteCollection(collection string) error {
 		kvStore := c.podInfo.GetKVStore()
 
 		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
+		if err != nil && !errors.Is(err, collection.ErrKVTableNotPresent) {
 			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+			kvErr = err
 		}
 	}()
 	wg.Wait()
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	if docErr != nil {
+		return docErr
+	}
+	if kvErr != nil {
+		return kvErr
+	}
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From 7a54bc62bd96d4de135761a77ab161115258d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:59 +0000
Subject: [PATCH 09/27] fix: add documents one request at a time, as a whole,
 or report why not

Concurrent requests were given the same vector ids. A document whose vector
was unavailable or did not fit, or that did not fit the indexes of the
collection, was dropped with a success reported, or panicked half way through.
---
 pkg/document/document.go | 305 ++++++++++++++++++++++++++++-----------
 pkg/hnsw/index.go        |   1 +
 2 files changed, 218 insertions(+), 88 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 8d4d855..f310828 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"math"
 	"os"
 	"strings"
 	"sync"
@@ -47,6 +48,9 @@ type Client struct {
 	podInfo       *pod.Info
 	lookup        vectorizer.Vectorizer
 	documentCache *lru.Cache
+	// number of vector ids handed out in a collection, which the store does
+	// not know when they could not be flushed
+	usedIds map[string]uint64
 }
 
 type Collection struct {
@@ -71,6 +75,7 @@ func New(config Config, api *dfs.API) (*Client, error) {
 		api:     api,
 		logger:  logger,
 		indices: map[string]h.VectorIndex{},
+		usedIds: map[string]uint64{},
 	}
 	// TODO support multiple languages
 	//if config.GlovePodRef != "" {
@@ -301,6 +306,7 @@ func (c *Client) DeleteCollection(name string) error {
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
+	delete(c.usedIds, namespacedCollection)
 	if docErr != nil {
 		return docErr
 	}
@@ -349,131 +355,254 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	namespacedCollection := namespace + collection
+func (c *Client) AddDocuments(collectionName string, propertiesToIndex []string, documents ...*Document) error {
+	namespacedCollection := namespace + collectionName
+
+	// get all the vectors first, so that a request that cannot be served is
+	// rejected before any of it is stored
+	vectors := make([][]float32, len(documents))
+	for i, doc := range documents {
+		vector, err := c.vectorOf(doc, propertiesToIndex)
+		if err != nil {
+			return err
+		}
+		vectors[i] = vector
+	}
+
+	// the ids of the vectors are assigned one after the other
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	// check if kv and doc table is open or not
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return err
 	}
+	err = c.validateDocuments(namespacedCollection, index, documents, vectors)
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
+		if !errors.Is(err, collection.ErrEntryNotFound) {
+			return err
+		}
 		count = 0
 	}
 
 	indexId := count
-	for _, doc := range documents {
-		doc.Properties["id"] = doc.ID
-
-		//check if vector is already present in the properties
-		if doc.Properties["vector"] != nil {
-			doc.Properties[hnswIndexName] = indexId
-
-			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
-
-				vector := make([]float32, len(slice))
-				for j, v := range slice {
-					var result float32
-
-					switch value := v.(type) {
-					case json.Number:
-						f64Val, err := value.Float64()
-						if err != nil {
-							return fmt.Errorf("vector is not []float32")
-						} else {
-							result = float32(f64Val)
-						}
-					case float32:
-						result = value
-					case float64:
-						result = float32(value)
-					default:
-						return fmt.Errorf("vector is not []float32")
-					}
-					vector[j] = result
-				}
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
+	if used := c.usedIds[namespacedCollection]; used > indexId {
+		indexId = used
+	}
+	addErr := func() error {
+		for i, doc := range documents {
+			properties := make(map[string]interface{}, len(doc.Properties)+2)
+			for key, value := range doc.Properties {
+				properties[key] = value
+			}
+			properties["id"] = doc.ID
+			delete(properties, "vector")
+			if vectors[i] == nil {
+				properties[hnswIndexName] = -1
+			} else {
+				properties[hnswIndexName] = indexId
+			}
 
+			data, err := json.Marshal(properties)
+			if err != nil {
+				c.logger.Errorf("marshal document failed :%s\n", err.Error())
+				return err
+			}
+
+			if vectors[i] != nil {
+				id := indexId
 				indexId++
-			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
+				err = index.Add(id, vectors[i])
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
-
-				indexId++
-			} else {
-				return fmt.Errorf("vector format is now supported")
+				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id), vectors[i])
 			}
-		} else {
-			// vectorize the properties
-			// add the vector in the properties before adding the document in the collection
-			vectorData := ""
-			for _, property := range propertiesToIndex {
-				dt, ok := doc.Properties[property]
-				if ok {
-					vectorData += dt.(string) + " "
-				}
+
+			err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+			if err != nil {
+				c.logger.Errorf("DocPut failed :%v\n", err.Error())
+				return err
 			}
+			fmt.Println("added document", indexId)
+		}
+		return nil
+	}()
+	c.usedIds[namespacedCollection] = indexId
 
-			if vectorData != "" {
-				if c.lookup == nil {
-					return fmt.Errorf("vectorizer is not initialized")
-				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
-				if err != nil {
-					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
-				}
+	// a document that could not be added does not take along those before it
+	if indexId > count {
+		err = index.Flush(indexId)
+		if err != nil {
+			return err
+		}
+	}
+	err = c.api.CommitPodFeeds(c.pod, c.sessionId)
+	if err != nil {
+		return err
+	}
+	return addErr
+}
 
-				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+// vectorOf returns the vector a document comes with, or else the one of its
+// properties. It is nil if there is nothing to vectorize.
+func (c *Client) vectorOf(doc *Document, propertiesToIndex []string) ([]float32, error) {
+	if doc == nil || doc.Properties == nil {
+		return nil, fmt.Errorf("document has no properties")
+	}
+	//check if vector is already present in the properties
+	if doc.Properties["vector"] != nil {
+		if slice, ok := doc.Properties["vector"].([]interface{}); ok {
+			vector := make([]float32, len(slice))
+			for j, v := range slice {
+				var result float32
+
+				switch value := v.(type) {
+				case json.Number:
+					f64Val, err := value.Float64()
+					if err != nil {
+						return nil, fmt.Errorf("vector is not []float32")
+					} else {
+						result = float32(f64Val)
+					}
+				case float32:
+					result = value
+				case float64:
+					result = float32(value)
+				default:
+					return nil, fmt.Errorf("vector is not []float32")
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
+				vector[j] = result
+			}
+			return checkVector(vector)
+		} else if slice, ok := doc.Properties["vector"].([]float32); ok {
+			return checkVector(slice)
+		}
+		return nil, fmt.Errorf("vector format is now supported")
+	}
 
-				indexId++
-			} else {
-				doc.Properties[hnswIndexName] = -1
+	// vectorize the properties
+	vectorData := ""
+	for _, property := range propertiesToIndex {
+		dt, ok := doc.Properties[property]
+		if ok {
+			text, ok := dt.(string)
+			if !ok {
+				return nil, fmt.Errorf("property %s is not a string, it cannot be vectorized", property)
 			}
+			vectorData += text + " "
+		}
+	}
+	if vectorData == "" {
+		return nil, nil
+	}
+	if c.lookup == nil {
+		return nil, fmt.Errorf("vectorizer is not initialized")
+	}
+	vector, err := c.lookup.Corpi([]string{vectorData})
+	if err != nil {
+		c.logger.Errorf("corpi failed :%s\n", err.Error())
+		return nil, err
+	}
+	return checkVector(vector.ToArray())
+}
+
+func checkVector(vector []float32) ([]float32, error) {
+	if len(vector) == 0 {
+		return nil, fmt.Errorf("vector is empty")
+	}
+	for _, v := range vector {
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return nil, fmt.Errorf("vector has a value that is not a finite float32")
 		}
+	}
+	return vector, nil
+}
 
-		data, err := json.Marshal(doc.Properties)
-		if err != nil {
-			c.logger.Errorf("marshal document failed :%s\n", err.Error())
+// validateDocuments checks that the documents fit the collection
+func (c *Client) validateDocuments(namespacedCollection string, index h.VectorIndex, documents []*Document, vectors [][]float32) error {
+	dimensions := 0
+	for _, vector := range vectors {
+		if vector == nil {
 			continue
 		}
-
-		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
-		if err != nil {
-			c.logger.Errorf("DocPut failed :%v\n", err.Error())
-			return err
+		if dimensions == 0 {
+			dimensions = len(vector)
+			err := index.ValidateBeforeInsert(vector)
+			if err != nil {
+				return err
+			}
+		}
+		if len(vector) != dimensions {
+			return fmt.Errorf("vectors have different lengths: %d and %d", dimensions, len(vector))
 		}
-		fmt.Println("added document", indexId)
 	}
-	err = index.Flush(indexId)
+
+	schemas, err := c.api.DocList(c.sessionId, c.pod)
 	if err != nil {
 		return err
 	}
-	err = c.api.CommitPodFeeds(c.pod, c.sessionId)
-	if err != nil {
-		return err
+	schema := schemas[namespacedCollection]
+	indexes := append(append(schema.SimpleIndexes, schema.MapIndexes...), schema.ListIndexes...)
+	for _, doc := range documents {
+		if doc.ID == "" {
+			return collection.ErrInvalidDocumentId
+		}
+		data, err := json.Marshal(doc.Properties)
+		if err != nil {
+			return err
+		}
+		properties := map[string]interface{}{}
+		err = json.Unmarshal(data, &properties)
+		if err != nil {
+			return err
+		}
+		for _, idx := range indexes {
+			if idx.FieldName == hnswIndexName || idx.FieldName == collection.DefaultIndexFieldName {
+				continue
+			}
+			value, ok := properties[idx.FieldName]
+			if !ok {
+				return errors.Wrap(collection.ErrDocumentDBIndexFieldNotPresent, idx.FieldName)
+			}
+			if !canBeIndexed(value, idx.FieldType) {
+				return fmt.Errorf("property %s does not fit its index", idx.FieldName)
+			}
+		}
 	}
 	return nil
 }
 
+func canBeIndexed(value interface{}, indexType collection.IndexType) bool {
+	switch indexType {
+	case collection.StringIndex:
+		_, ok := value.(string)
+		return ok
+	case collection.NumberIndex:
+		_, ok := value.(float64)
+		return ok
+	case collection.MapIndex:
+		entries, ok := value.(map[string]interface{})
+		for _, entry := range entries {
+			ok = ok && canBeIndexed(entry, collection.StringIndex)
+		}
+		return ok
+	case collection.ListIndex:
+		entries, ok := value.([]interface{})
+		for _, entry := range entries {
+			ok = ok && canBeIndexed(entry, collection.StringIndex)
+		}
+		return ok
+	}
+	return false
+}
+
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 	index, err := c.openCollection(namespacedCollection)
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index e9665d9..9cfd71a 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -192,6 +192,7 @@ type VectorIndex interface {
 	Flush(docCount uint64) error
 	GetDocCount() (uint64, error)
 	LoadEntrypoint() error
+	ValidateBeforeInsert(vector []float32) error
 	Add(id uint64, vector []float32) error
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
 		allowList helpers.AllowList) ([]uint64, []float32, error)
-- 
2.43.0


From 70fa0ed7dd4c913d6b482471b0411fad6ece8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:10 +0000
Subject: [PATCH 10/27] fix: search returns the documents that exist, the same
 by text as by vector

A replaced document made every search that met its old vector fail or return
some other document, a search by text explored as few candidates as it was
asked to return, and a negative limit panicked.
---
 pkg/document/document.go | 123 ++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 65 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index f310828..484225b 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -604,11 +604,6 @@ func canBeIndexed(value interface{}, indexType collection.IndexType) bool {
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
-	namespacedCollection := namespace + collection
-	index, err := c.openCollection(namespacedCollection)
-	if err != nil {
-		return nil, nil, err
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -616,54 +611,19 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	err = index.LoadEntrypoint()
-	if err != nil {
-		return nil, nil, err
-	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
-	if err != nil {
-		return nil, nil, err
-	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
-	}
-	documents := make([][]byte, len(ids))
-	wg := sync.WaitGroup{}
-	errCh := make(chan error, len(ids))
-	for i, id := range ids {
-		wg.Add(1)
-		go func(i int, id uint64) {
-			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if err != nil {
-				fmt.Println("doc find error", err, id, expr, ids)
-				errCh <- err
-				return
-			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
-			}
-			documents[i] = docs[0]
-		}(i, id)
-	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
-	for err := range errCh {
-		return nil, nil, err
-	}
-
-	return documents, dists, nil
+	return c.GetNearDocumentsByVector(collection, vector.ToArray(), distance, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit cannot be negative")
+	}
+	_, err := checkVector(vector)
+	if err != nil {
+		return nil, nil, err
+	}
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
@@ -673,15 +633,43 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, 800, nil)
+	ef := 800
+	if limit > ef {
+		ef = limit
+	}
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, ef, nil)
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
+
+	documents := [][]byte{}
+	distances := []float32{}
+	for len(ids) > 0 && (limit == 0 || len(documents) < limit) {
+		// vectors of documents that were replaced are still in the index, so
+		// more of them may be needed to get enough documents
+		n := len(ids)
+		if limit != 0 && limit-len(documents) < n {
+			n = limit - len(documents)
+		}
+		found, err := c.documentsByHnswId(namespacedCollection, ids[:n])
+		if err != nil {
+			return nil, nil, err
+		}
+		for i, doc := range found {
+			if doc != nil {
+				documents = append(documents, doc)
+				distances = append(distances, dists[i])
+			}
+		}
+		ids = ids[n:]
+		dists = dists[n:]
 	}
+	return documents, distances, nil
+}
 
+// documentsByHnswId returns the documents with the given vectors, or nil in
+// place of those that do not exist anymore
+func (c *Client) documentsByHnswId(namespacedCollection string, ids []uint64) ([][]byte, error) {
 	documents := make([][]byte, len(ids))
 	wg := sync.WaitGroup{}
 	errCh := make(chan error, len(ids))
@@ -691,27 +679,32 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 			defer wg.Done()
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if err != nil {
+			if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
 				errCh <- err
 				return
 			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
+			for _, doc := range docs {
+				// the document with the next id is found in place of a missing one
+				var found struct {
+					HnswId *float64 `json:"hnswId"`
+				}
+				err = json.Unmarshal(doc, &found)
+				if err != nil {
+					errCh <- err
+					return
+				}
+				if found.HnswId != nil && *found.HnswId == float64(id) {
+					documents[i] = doc
+				}
 			}
-			documents[i] = docs[0]
 		}(i, id)
 	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
+	wg.Wait()
+	close(errCh)
 	for err := range errCh {
-		return nil, nil, err
+		return nil, err
 	}
-
-	return documents, dists, nil
+	return documents, nil
 }
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
-- 
2.43.0


From 78e4aa36ff183f413fdf0059637e29de3d10e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:34 +0000
Subject: [PATCH 11/27] fix: only return a document that has the value asked
 for

---
 pkg/document/document.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 484225b..b1301d5 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"math"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -722,10 +723,42 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if err != nil {
 		return nil, err
 	}
-	if len(docs) == 0 {
-		return nil, fmt.Errorf("document not found")
+	for _, doc := range docs {
+		properties := map[string]interface{}{}
+		err = json.Unmarshal(doc, &properties)
+		if err != nil {
+			return nil, err
+		}
+		// what is found is the next entry of the index, if there is no such value
+		if hasValue(properties[property], value) {
+			return doc, nil
+		}
 	}
-	return docs[0], nil
+	return nil, fmt.Errorf("document not found")
+}
+
+func hasValue(property interface{}, value string) bool {
+	switch p := property.(type) {
+	case string:
+		return p == value
+	case float64:
+		number, err := strconv.ParseInt(value, 10, 64)
+		return err == nil && p == float64(number)
+	case []interface{}:
+		for _, entry := range p {
+			if entry == value {
+				return true
+			}
+		}
+	case map[string]interface{}:
+		for key, entry := range p {
+			text, ok := entry.(string)
+			if ok && key+text == strings.ReplaceAll(value, ":", "") {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 func convertToFloat32Slice(i interface{}) ([]float32, error) {
-- 
2.43.0


From 378f4ecd98c063b2f619e3a008ea5f531499eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:24 +0000
Subject: [PATCH 12/27] fix: answer an unusable document, index or embedding
 with an error

A null document or index, properties that are not an object and an error of
the vectorizer all ended in a nil pointer dereference.
---
 adapters/handlers/collections.go  | 3 +++
 adapters/handlers/documents.go    | 5 ++++-
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..1c0ab78 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil || v.FieldName == "" {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index should have a field name"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..ecdff03 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be blank"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document properties should be an object"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..af83d24 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
-- 
2.43.0


From 734c9bd5d54dd38e2bfac919bf983af3cfc1d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:20 +0000
Subject: [PATCH 13/27] fix: take the locks of the vector cache in a fixed
 order

---
 pkg/hnsw/compressed_vector_cache.go | 11 +++--------
 pkg/hnsw/vector_cache.go            | 11 +++--------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/pkg/hnsw/compressed_vector_cache.go b/pkg/hnsw/compressed_vector_cache.go
index 97bfc25..64247ed 100644
--- a/pkg/hnsw/compressed_vector_cache.go
+++ b/pkg/hnsw/compressed_vector_cache.go
@@ -214,16 +214,11 @@ func (c *compressedShardedLockCache) replaceIfFull() {
 }
 
 func (c *compressedShardedLockCache) obtainAllLocks() {
-	wg := &sync.WaitGroup{}
+	// in a fixed order: two callers that each hold some of the locks would wait
+	// for each other forever
 	for i := uint64(0); i < shardFactor; i++ {
-		wg.Add(1)
-		go func(index uint64) {
-			defer wg.Done()
-			c.shardedLocks[index].Lock()
-		}(i)
+		c.shardedLocks[i].Lock()
 	}
-
-	wg.Wait()
 }
 
 func (c *compressedShardedLockCache) releaseAllLocks() {
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 9574ac2..f09ccad 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -253,16 +253,11 @@ func (s *shardedLockCache) replaceIfFull() {
 }
 
 func (s *shardedLockCache) obtainAllLocks() {
-	wg := &sync.WaitGroup{}
+	// in a fixed order: two callers that each hold some of the locks would wait
+	// for each other forever
 	for i := uint64(0); i < shardFactor; i++ {
-		wg.Add(1)
-		go func(index uint64) {
-			defer wg.Done()
-			s.shardedLocks[index].Lock()
-		}(i)
+		s.shardedLocks[i].Lock()
 	}
-
-	wg.Wait()
 }
 
 func (s *shardedLockCache) releaseAllLocks() {
-- 
2.43.0


From 0333bca15f82e7a260252c0b0d09808bfab37cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:48 +0000
Subject: [PATCH 14/27] fix: do not search from a node that is still being
 inserted

---
 pkg/hnsw/search_with_max_dist.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 13d25e2..42912b0 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -54,8 +54,12 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		}
 		if res.Len() > 0 {
 			best := res.Pop()
-			entryPointID = best.ID
-			entryPointDistance = best.Dist
+			// a node that is just being inserted does not have its connections on
+			// the lower layers yet, there is nothing to be found from there
+			if node := h.nodeByID(best.ID); node != nil && !node.isUnderMaintenance() {
+				entryPointID = best.ID
+				entryPointDistance = best.Dist
+			}
 		}
 
 		h.pools.pqResults.Put(res)
-- 
2.43.0


From d2f0ad0b8037e3b42f2a307ca7f6c2d8c2d09001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:39 +0000
Subject: [PATCH 15/27] fix: do not take what cannot be read for what does not
 exist

---
 pkg/hnsw/index.go                | 38 +++++++++++++++++++++++---------
 pkg/hnsw/insert.go               | 12 +++++++++-
 pkg/hnsw/neighbor_connections.go |  5 ++++-
 pkg/hnsw/search.go               | 18 +++++++++++++--
 pkg/hnsw/search_with_max_dist.go |  3 +++
 5 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 9cfd71a..5172a92 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -612,7 +612,25 @@ func (h *hnsw) isEmptyUnsecured() bool {
 	return isEmpty
 }
 
+// checkReadable makes sure that an index that cannot be read is not taken for
+// an empty one
+func (h *hnsw) checkReadable() error {
+	_, err := h.nodes.IsEmpty(h.className)
+	return errors.Wrap(err, "read index")
+}
+
 func (h *hnsw) nodeByID(id uint64) *vertex {
+	node, err := h.loadNode(id)
+	if err != nil {
+		fmt.Println("nodeByID: could not get node", id, h.className, err)
+		return nil
+	}
+	return node
+}
+
+// loadNode returns nil if there is no such node, and an error if it cannot be
+// read
+func (h *hnsw) loadNode(id uint64) (*vertex, error) {
 	var (
 		value []byte
 		v     *vertex
@@ -622,31 +640,31 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	if ok {
 		if vertexValue, ok := val.(*vertex); ok {
 			// Now vertexValue is a pointer to the cached vertex object
-			return vertexValue
+			return vertexValue, nil
 		} else {
-			fmt.Println("Value is not a vertex.")
-			return nil
+			return nil, fmt.Errorf("value is not a vertex")
 		}
 	} else if v = h.unflushedNode(id); v != nil {
 		h.indexCache.Add(id, v)
-		return v
+		return v, nil
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
-			fmt.Println("nodeByID: could not get node", id, h.className, err)
-			return nil
+			if errors.Is(err, collection.ErrEntryNotFound) {
+				return nil, nil
+			}
+			return nil, err
 		}
 		err = json.Unmarshal(value, &v)
 		if err != nil {
-			fmt.Println("nodeByID: could not Unmarshal node", err)
-			return nil
+			return nil, errors.Wrap(err, "unmarshal node")
 		}
 		// all users of a node have to share it, stick with the one which is
 		// already there if someone else was faster
 		if previous, ok, _ := h.indexCache.PeekOrAdd(id, v); ok {
-			return previous.(*vertex)
+			return previous.(*vertex), nil
 		}
-		return v
+		return v, nil
 	}
 }
 
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index 5436605..e35b98c 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -38,6 +38,9 @@ type count struct {
 }
 
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
+	if err := h.checkReadable(); err != nil {
+		return err
+	}
 	if h.isEmpty() {
 		return nil
 	}
@@ -221,7 +224,11 @@ func (h *hnsw) LoadEntrypoint() error {
 	}
 
 	h.entryPointID = ep.ID
-	if node := h.nodeByID(ep.ID); node != nil {
+	node, err := h.loadNode(ep.ID)
+	if err != nil {
+		return errors.Wrapf(err, "get entrypoint %d", ep.ID)
+	}
+	if node != nil {
 		node.Lock()
 		h.currentMaximumLayer = node.Level
 		node.Unlock()
@@ -236,6 +243,9 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 
 	before := time.Now()
 
+	if err := h.checkReadable(); err != nil {
+		return err
+	}
 	wasFirst := false
 	var firstInsertError error
 	h.initialInsertOnce.Do(func() {
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..5348a13 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -138,7 +138,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	level int,
 ) error {
-	neighbor := n.graph.nodeByID(neighborID)
+	neighbor, err := n.graph.loadNode(neighborID)
+	if err != nil {
+		return err
+	}
 	if skip := n.skipNeighbor(neighbor); skip {
 		return nil
 	}
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 41e3d54..d867918 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -245,6 +245,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 		nds := []neighbourDistance{}
 		wg := sync.WaitGroup{}
 		lock := sync.Mutex{}
+		var distErr error
 		for i, neighborID := range connectionsReusable {
 			if ok := visited.Visited(neighborID); ok {
 				// skip if we've already visited this neighbor
@@ -265,6 +266,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 					distance, ok, err = h.distanceToFloatNode(floatDistancer, neighborID)
 				}
 				if err != nil {
+					lock.Lock()
+					distErr = err
+					lock.Unlock()
 					return
 				}
 				if !ok {
@@ -277,6 +281,10 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			}(i, neighborID)
 		}
 		wg.Wait()
+		if distErr != nil {
+			// what is behind this node would be missing
+			return nil, errors.Wrap(distErr, "calculate distance between candidate and query")
+		}
 		for _, nd := range nds {
 			distance, neighborID := nd.dist, nd.id
 			if distance < worstResultDistance || results.Len() < ef {
@@ -419,9 +427,12 @@ func (h *hnsw) distanceToByteNode(distancer *ssdhelpers.PQDistancer,
 func (h *hnsw) distanceToFloatNode(distancer distancer.Distancer,
 	nodeID uint64,
 ) (float32, bool, error) {
-	node := h.nodeByID(nodeID)
+	node, err := h.loadNode(nodeID)
+	if err != nil {
+		return 0, false, errors.Wrapf(err, "get vector of ID %d", nodeID)
+	}
 	if node == nil {
-		return 0, false, fmt.Errorf("get vector of ID %d failed\n", nodeID)
+		return 0, false, nil
 	}
 
 	dist, _, err := distancer.Distance(node.Vector)
@@ -464,6 +475,9 @@ func (h *hnsw) handleDeletedNode(docID uint64) {
 func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
+	if err := h.checkReadable(); err != nil {
+		return nil, nil, err
+	}
 	if h.isEmpty() {
 		return nil, nil, nil
 	}
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 42912b0..487aa61 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,6 +27,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if err := h.checkReadable(); err != nil {
+		return nil, nil, err
+	}
 	if h.isEmpty() {
 		return nil, nil, nil
 	}
-- 
2.43.0


From 752fdd8da6c7d32b37794574215b4497cadc43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 16/27] fix: do not reuse vector ids or record vectors after a
 failure of the store

---
 pkg/document/document.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index b1301d5..206c85d 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -383,18 +383,28 @@ func (c *Client) AddDocuments(collectionName string, propertiesToIndex []string,
 	if err != nil {
 		return err
 	}
+	used := c.usedIds[namespacedCollection]
 	count, err := index.GetDocCount()
 	if err != nil {
 		if !errors.Is(err, collection.ErrEntryNotFound) {
 			return err
 		}
+		// fairOS does not find what it cannot read either
+		empty, emptyErr := c.podInfo.GetKVStore().IsEmpty(namespacedCollection)
+		if emptyErr != nil {
+			return emptyErr
+		}
+		if !empty && used == 0 {
+			return err
+		}
 		count = 0
 	}
 
 	indexId := count
-	if used := c.usedIds[namespacedCollection]; used > indexId {
+	if used > indexId {
 		indexId = used
 	}
+	added := 0
 	addErr := func() error {
 		for i, doc := range documents {
 			properties := make(map[string]interface{}, len(doc.Properties)+2)
@@ -423,6 +433,7 @@ func (c *Client) AddDocuments(collectionName string, propertiesToIndex []string,
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
 					return err
 				}
+				added++
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id), vectors[i])
 			}
 
@@ -438,7 +449,7 @@ func (c *Client) AddDocuments(collectionName string, propertiesToIndex []string,
 	c.usedIds[namespacedCollection] = indexId
 
 	// a document that could not be added does not take along those before it
-	if indexId > count {
+	if added > 0 {
 		err = index.Flush(indexId)
 		if err != nil {
 			return err
-- 
2.43.0


From 71a056d9df8de63f904b0073eda1a76306ca6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 17/27] fix: a search does not reserve memory for more results
 than there are vectors

---
 pkg/document/document.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 206c85d..294434f 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -626,8 +626,8 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	return c.GetNearDocumentsByVector(collection, vector.ToArray(), distance, limit)
 }
 
-func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
-	namespacedCollection := namespace + collection
+func (c *Client) GetNearDocumentsByVector(collectionName string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
+	namespacedCollection := namespace + collectionName
 
 	if limit < 0 {
 		return nil, nil, fmt.Errorf("limit cannot be negative")
@@ -647,7 +647,17 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	}
 	ef := 800
 	if limit > ef {
-		ef = limit
+		// there are no more to be found than there are vectors
+		count, err := index.GetDocCount()
+		if err != nil && !errors.Is(err, collection.ErrEntryNotFound) {
+			return nil, nil, err
+		}
+		if uint64(limit) < count {
+			count = uint64(limit)
+		}
+		if int(count) > ef {
+			ef = int(count)
+		}
 	}
 	ids, dists, err := index.KnnSearchByVectorMaxDist(vector, distance, ef, nil)
 	if err != nil {
-- 
2.43.0


From b77515de3c1b663e989fd208b2f690a819ad3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:37 +0000
Subject: [PATCH 18/27] fix: the geo distance of opposite points is not NaN

---
 pkg/hnsw/distancer/geo_spatial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..5a2a65b 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -35,7 +35,8 @@ func geoDist(a, b []float32) (float32, bool, error) {
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
 
-	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
+	// rounding can take A above 1 for opposite points, their distance is not NaN
+	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(math.Max(0, 1-A)))
 
 	return float32(R * C), true, nil
 }
-- 
2.43.0


From 347433de5446c6f05636a58037cab71f680b251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:11 +0000
Subject: [PATCH 19/27] fix: a commit log that ends within an entrypoint entry
 keeps the entrypoint before it

---
 pkg/hnsw/deserializer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..7ce2097 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,12 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				// keep the previous one if the log ends within this entry
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
-- 
2.43.0


From 25f24a782b7dceba2ae4f34e8ef55e6ceb4bfce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:11 +0000
Subject: [PATCH 20/27] fix: the encoders of a quantizer count for the valid
 length of a commit log

---
 pkg/hnsw/deserializer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 7ce2097..532a84a 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -144,8 +144,9 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			out.Level = 0
 			out.Nodes = make([]*vertex, initialSize)
 		case AddPQ:
-			err = c.ReadPQ(fd, out)
-			readThisRound = 9
+			counted := &countingReader{r: fd}
+			err = c.ReadPQ(counted, out)
+			readThisRound = counted.n
 		default:
 			err = errors.Errorf("unrecognized commit type %d", ct)
 		}
@@ -565,6 +566,18 @@ func (c *Deserializer) ReadPQ(r io.Reader, res *DeserializationResult) error {
 	return nil
 }
 
+// countingReader knows how much was read, for entries of variable length
+type countingReader struct {
+	r io.Reader
+	n int
+}
+
+func (c *countingReader) Read(p []byte) (int, error) {
+	n, err := c.r.Read(p)
+	c.n += n
+	return n, err
+}
+
 func (c *Deserializer) readUint64(r io.Reader) (uint64, error) {
 	var value uint64
 	c.resetResusableBuffer(8)
-- 
2.43.0


From 49c02773eda12f57378dc3502077eca7fba1d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 21/27] fix: condensing a commit log keeps that links of a node
 beyond the initial size were cleared

---
 pkg/hnsw/deserializer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 532a84a..0280d5f 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -385,8 +385,17 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	}
 
 	if int(id) >= len(res.Nodes) {
-		// node is out of bounds, so it can't exist, nothing to do here
-		return nil
+		if !keepReplaceInfo {
+			// node is out of bounds, so it can't exist, nothing to do here
+			return nil
+		}
+
+		// looking at a single log in isolation, the node can be in a previous one
+		newNodes, _, err := growIndexToAccomodateNode(res.Nodes, id, c.logger)
+		if err != nil {
+			return err
+		}
+		res.Nodes = newNodes
 	}
 
 	if keepReplaceInfo {
-- 
2.43.0


From f35b650101f7fc51c4e596a90f8d02c6b81fcd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:56 +0000
Subject: [PATCH 22/27] fix: a distance search of several rounds repeats and
 leaves out vectors at equal distances

---
 pkg/hnsw/search.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index d867918..dd1cd3e 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -113,12 +113,17 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		offsetCap := searchParams.offsetCapacity(ids)
 		totalLimitCap := searchParams.totalLimitCapacity(ids)
 
-		ids, dist = ids[offsetCap:totalLimitCap], dist[offsetCap:totalLimitCap]
-
-		if len(ids) == 0 {
+		if offsetCap >= totalLimitCap {
+			// no more than there were before
 			return false, nil
 		}
 
+		// the results take the place of those of the previous search: among
+		// vectors at the same distance it may have returned others first, so
+		// that continuing at the offset repeats some and leaves out others
+		ids, dist = ids[:totalLimitCap], dist[:totalLimitCap]
+		resultIDs, resultDist = resultIDs[:0], resultDist[:0]
+
 		lastFound := dist[len(dist)-1]
 		shouldContinue = lastFound <= targetDistance
 
-- 
2.43.0


From b08533f983ccf95584b78f6725fcb03496fa9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:58 +0000
Subject: [PATCH 23/27] fix: a deleted collection leaves its index in memory,
 with two goroutines

---
 pkg/document/document.go | 7 +++++++
 pkg/hnsw/index.go        | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 294434f..26c08c4 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -305,8 +305,15 @@ func (c *Client) DeleteCollection(name string) error {
 	}()
 	wg.Wait()
 	c.hnswLock.Lock()
+	index, opened := c.indices[namespacedCollection]
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
+	if opened {
+		// stop what the index does in the background, which keeps it in memory
+		if err := index.Drop(context.Background()); err != nil {
+			c.logger.Errorf("drop index failed :%s\n", err.Error())
+		}
+	}
 	delete(c.usedIds, namespacedCollection)
 	if docErr != nil {
 		return docErr
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 5172a92..7d8c5f0 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -197,6 +197,7 @@ type VectorIndex interface {
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
 		allowList helpers.AllowList) ([]uint64, []float32, error)
 	SearchByVectorDistance(query []float32, targetDistance float32, maxLimit int64, allowList helpers.AllowList) ([]uint64, []float32, error)
+	Drop(ctx context.Context) error
 }
 
 type BufferedLinksLogger interface {
@@ -719,8 +720,9 @@ func (h *hnsw) Drop(ctx context.Context) error {
 	if h.compressed.Load() {
 		h.compressedVectorsCache.drop()
 	} else {
-		// cancel vector cache goroutine
+		// cancel vector cache goroutines
 		h.cache.drop()
+		h.compressedVectorsCache.drop()
 	}
 
 	// cancel commit logger last, as the tombstone cleanup cycle might still
-- 
2.43.0


From 7173680b8ca1b91b115b50f505553beed7e8e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 24/27] fix: a property named as hnswId in other letters hides
 a document from searches

Go takes field names of a struct without regard to case, so the property
hnswid was read in place of hnswId.
---
 pkg/document/document.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 26c08c4..ea18ff3 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -714,15 +714,13 @@ func (c *Client) documentsByHnswId(namespacedCollection string, ids []uint64) ([
 			}
 			for _, doc := range docs {
 				// the document with the next id is found in place of a missing one
-				var found struct {
-					HnswId *float64 `json:"hnswId"`
-				}
+				found := map[string]interface{}{}
 				err = json.Unmarshal(doc, &found)
 				if err != nil {
 					errCh <- err
 					return
 				}
-				if found.HnswId != nil && *found.HnswId == float64(id) {
+				if found[hnswIndexName] == float64(id) {
 					documents[i] = doc
 				}
 			}
-- 
2.43.0


From bbea5f53b5d780f091a0de87e104bc2fd71ab90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 25/27] fix: forced switch of commit logs within a second keeps
 the old file

---
 pkg/hnsw/commit_logger.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/commit_logger.go b/pkg/hnsw/commit_logger.go
index 0c3eb65..2d9e378 100644
--- a/pkg/hnsw/commit_logger.go
+++ b/pkg/hnsw/commit_logger.go
@@ -511,8 +511,13 @@ func (l *hnswCommitLogger) switchCommitLogs(force bool) (bool, error) {
 		return true, err
 	}
 
-	// this is a new commit log, initialize with the current time stamp
-	fileName := fmt.Sprintf("%d", time.Now().Unix())
+	// this is a new commit log, initialize with the current time stamp, or a
+	// later one if the old log was begun within the same second
+	timeStamp := time.Now().Unix()
+	if old, err := asTimeStamp(oldFileName); err == nil && timeStamp <= old {
+		timeStamp = old + 1
+	}
+	fileName := fmt.Sprintf("%d", timeStamp)
 
 	if force {
 		l.logger.WithField("action", "commit_log_file_switched").
-- 
2.43.0


From a2897ce867cc3d1ebe29f2d8c95ba45d7399fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 26/27] fix: an index that is shut down leaves a goroutine
 running

---
 pkg/hnsw/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 7d8c5f0..76cdb29 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -751,6 +751,7 @@ func (h *hnsw) Shutdown(ctx context.Context) error {
 		}
 	} else {
 		h.cache.drop()
+		h.compressedVectorsCache.drop()
 	}
 
 	return nil
-- 
2.43.0


From ba05ce3c11ecc6de585ab5cecf64c6b98eb92897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:42 +0000
Subject: [PATCH 27/27] fix: condensing that failed leaves an incomplete log
 that is appended to or combined

---
 pkg/hnsw/condensor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/condensor.go b/pkg/hnsw/condensor.go
index 6453a33..484a31e 100644
--- a/pkg/hnsw/condensor.go
+++ b/pkg/hnsw/condensor.go
@@ -29,7 +29,7 @@ type MemoryCondensor struct {
 	logger     logrus.FieldLogger
 }
 
-func (c *MemoryCondensor) Do(fileName string) error {
+func (c *MemoryCondensor) Do(fileName string) (err error) {
 	fd, err := os.Open(fileName)
 	if err != nil {
 		return errors.Wrap(err, "open commit log to be condensed")
@@ -43,11 +43,19 @@ func (c *MemoryCondensor) Do(fileName string) error {
 	}
 
 	newLogFile, err := os.OpenFile(fmt.Sprintf("%s.condensed", fileName),
-		os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o666)
+		os.O_WRONLY|os.O_APPEND|os.O_CREATE|os.O_TRUNC, 0o666)
 	if err != nil {
 		return errors.Wrap(err, "open new commit log file for writing")
 	}
 
+	defer func() {
+		if err != nil {
+			// an incomplete file must not be taken for a condensed log
+			newLogFile.Close()
+			os.Remove(newLogFile.Name())
+		}
+	}()
+
 	c.newLogFile = newLogFile
 
 	c.newLog = NewWriterSize(c.newLogFile, 1*1024*1024)
-- 
2.43.0

