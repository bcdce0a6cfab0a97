From b3b9e34cc04d6bde0fb8b355a9e8909ab052fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 01/62] fix: keep the nearest-neighbour buffer sorted when
 distances tie

The binary search in distance_get_core_distances stopped on an equal entry
without moving the lower bound, so the tied value was inserted too far left
and the buffer was no longer sorted: core distances were wrong for data with
repeated distances.
---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 5fea2fb7c51e9c68525c140f6b0b754e93046985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 02/62] fix: initialise every pointer of an hdbscan object

hdbscan_init left the mst and the distance arrays uninitialised, so cleaning
or destroying an object that was never run freed garbage pointers.
---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..4dfafa6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From 127e781419c349f45f195343cd4cd716f83bf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 03/62] fix: cluster datasets of fewer than five points

hdbscan_run sized its cluster list as zero for fewer than five points, and
hdbscan_create_cluster_map did the same for ranges of fewer than three
labels; array_list_init asserts that the size is positive and aborted.
---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 4dfafa6..b784592 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -324,7 +324,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = (index_t)((csize + 1) * 4);
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
@@ -1226,7 +1226,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init((size_t)size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From 8d2829614de7637f2db6cf9225e4663fab87b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 04/62] fix: report clusters of infinite stability

A cluster that only dies at level zero (duplicate points) has stability
infinity, which never compares equal to D_MAX, so hdbscan_propagate_tree
never returned TRUE and never warned.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b784592..959b9fb 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1036,7 +1036,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 923054c36867a5adda5c2a3f6d51197df2e53c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 05/62] fix: outlier scores when the root cluster never splits

Without children the root kept D_MAX as its lowest descendant death level,
so every score was 1 - D_MAX/eps instead of lying in [0, 1].
---
 src/cluster.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..31862fd 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,12 +148,12 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
-	if (cl->parent != NULL) {
-		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
+	//Propagate lowest death level of any descendants:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
 
+	if (cl->parent != NULL) {
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
 		}
-- 
2.43.0


From d40ca3efdf5eaab2cccc36cd6eafc46f660032a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/62] fix: compute the distances of every point when the data
 is not row-wise

With rowwise FALSE each element is a point, but only rows x rows distances
were computed, so the clustering read past the distance arrays.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 959b9fb..d15ec18 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -319,7 +319,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == TRUE ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From f6ca885e4d6e4774bd191649f8b3808910f4bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 07/62] fix: integer coordinates whose difference does not fit
 an int

The subtraction was done in int and overflowed, giving wrong distances.
---
 src/distance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..b020d2a 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,7 +170,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-- 
2.43.0


From 850839cecc7d79b6a77f6ead944fdda2eaf65ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 08/62] fix: start the variance sums at zero

hdbscan_calculate_stats_helper accumulated into whatever the caller's
structure held, so variance, skewness and kurtosis were garbage.
---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d15ec18..470f727 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1448,6 +1448,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	distance_t sum_sd = 0;
 	distance_t sum_dc = 0;
 	distance_t sum_dd = 0;
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
 	
 	for(index_t i = 0; i < stats->count; i++)
 	{
-- 
2.43.0


From 110c76451f28047578f1bf3a2d51f24a4250d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 09/62] fix: sort the given clusters by their own confidence

hdbscan_sort_by_similarity paired the i-th given cluster with the confidence
of the i-th key of the distance map.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 470f727..e3a6bf4 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1693,7 +1693,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From bc3dc540aa02e94aa23cb28582e58ee7d89561a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 10/62] fix: let the cluster sorts start from no list or an
 empty list

hdbscan_sort_by_length asserted that a list was given although it handles
NULL, read the key set structure instead of its data, and, like
hdbscan_sort_by_similarity, asserted inside array_list_init for an empty
list.
---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e3a6bf4..c526515 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1648,7 +1648,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1721,7 +1721,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
@@ -1736,7 +1736,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1752,7 +1752,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From 4c30f975815befaec93aa40a025ed68df4976b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 11/62] fix: unlink hashtable entries from the middle of a
 chain

hashtable_remove cleared entry->prev before copying it to the next entry, so
removing the entry behind it later dropped the whole rest of the bucket. It
also copied the removed value with the size of the key type.
---
 modules/collections/src/hashtable.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..b62a65a 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,28 +297,18 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
-        if(htbl->table[bucket] != NULL)
-        {
-            htbl->table[bucket]->prev = NULL;
-        }
     }
 
+    // Get the next entry to point to the previous entry
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
-    } else {
-        if(entry->prev != NULL)
-        {
-            entry->prev->next = NULL;
-        }
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 67bfd9b960143939457e9917c53b7a6ec2b27122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 12/62] fix: destroy the key of every entry when a hashtable is
 cleared

All entries of a bucket were cleared with the key that led to the bucket, so
colliding owned keys were leaked and one was destroyed repeatedly.
---
 modules/collections/src/hashtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index b62a65a..2b57a6a 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -350,6 +350,7 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, get_htype_size(htbl->ktype));
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From 6cca951b279ae2ea01f945b66c6ad68cc9fc6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 13/62] fix: remember the capacity of a list that clear has
 shrunk

array_list_clear with resize (set_clear, hashtable_clear) kept max_size, so
the next insertions wrote past the one-element buffer.
---
 modules/collections/src/list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..4e79a7e 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -281,6 +281,7 @@ void array_list_clear(ArrayList* list, int32_t resize)
 	list->size = 0;
 	if(resize) {
 		list->data = realloc(list->data, list->step);
+		list->max_size = 1;
 	}
 }
 
-- 
2.43.0


From a6d0487fe595bdaa3348eb5a6f7c5060283e61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 14/62] fix: keep both directions linked when a linkedlist node
 is unhooked

nd->prev was cleared before it was copied to the neighbour or the tail, so
removing the last node lost the tail (the next tail_add crashed) and removing
a middle node broke the backward links.
---
 modules/collections/src/linkedlist.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..421e970 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,28 +257,20 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
-
-        if(list->head != NULL)
-        {
-            list->head->prev = NULL;
-        }
     }
 
     // Get the next node to point to the preious node
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
-        if(list->tail != NULL)
-        {
-            list->tail->next = NULL;
-        }
     }
+
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From a634b27c6ed1e2d434e1ea9facce2a58d81fe4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 15/62] fix: data race when the offsets of new clusters are
 assigned

newCluster was shared by the threads of the loop, so a cluster could keep
offset 0 and lose its points in the flat clustering.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c526515..b1c0695 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -673,7 +673,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		cluster* newCluster = NULL;
 		
 		#ifdef _OPENMP
-		#pragma omp parallel for
+		#pragma omp parallel for private(newCluster)
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-- 
2.43.0


From 009b8f129d45abd1046cc99605b61ca41c2755f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 16/62] fix: data races in the skewness and kurtosis helpers

Every thread of a parallel region ran the whole computation and wrote the
same result fields; the read-modify-write of the kurtosis could be applied
more than once.
---
 src/hdbscan.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b1c0695..10ef40e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1342,19 +1342,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1371,10 +1364,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1403,9 +1392,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From b6b1eb32dc4363d24fab73fe5477c81e6ce22bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 17/62] fix: release the previous results when hdbscan_run is
 called again

A second hdbscan_run on the same object overwrote every result pointer and
leaked the first run.
---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 10ef40e..dfeb304 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,6 +316,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// release the results of an earlier run
+	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From e91105575452b6cd94d0ac2b4f1a07dbe7d5ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 18/62] fix: same layout of the shared structures in C and C++

The virtual destructors gave Cluster, Constraint, OutlierScore and
UndirectedGraph a vtable pointer in C++ only, so C++ code that read clusters,
outlier scores or the mst of an object filled in by the C library read the
wrong bytes.
---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From b75c60fd1819e25feabdefa2ef8090d4a96e2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 19/62] fix: hdbscan::clean must not free the object it is
 called on

It called hdbscan_destroy(this), freeing stack or static objects, and the
destructor then cleaned the freed memory again.
---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..c52c423 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From 6325a00b72e91ae1a10c3b2ea8e7bfb84fca2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 20/62] fix: release the virtual child of a cluster instead of
 its parent

cluster_release_virtual_child destroyed the parent cluster, which is owned by
the cluster tree and was then used and destroyed again.
---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 31862fd..aa8f43d 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -229,8 +229,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From 5034fc3f3c1b3fbea93da9e4e889576860140f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 21/62] fix: build the export file names from the given name
 only

hdbscan_print_hierarchies appended to uninitialised, fixed-size buffers, so
the files were written to garbage names and long names overflowed.
---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index dfeb304..37f02ad 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1848,16 +1848,16 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + 32];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + 32];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From 81dcf2586ddd602ab059ba5a0e77cde2ca967080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 22/62] fix: printing of cluster and distance maps

The point indices were read as labels, and a distance map entry of a cluster
without pairwise distances (min_dr is D_MAX) overflowed the line buffer.
---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 37f02ad..dd83ee9 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1803,7 +1803,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
@@ -1923,7 +1923,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[2560];
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
-- 
2.43.0


From 45d7d879bbdc05a97332b0ff644139bed77d2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 23/62] fix: buffer overflow when large distances are printed

---
 src/distance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index b020d2a..d794ffe 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -277,7 +277,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[350];
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
-- 
2.43.0


From ee426641c2d3d5cb23fae334c2c31593f6317332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 24/62] fix: minimum core distance of a cluster must not depend
 on point order

Zero core distances are skipped for the minimum, except that the first member
of a cluster was taken unconditionally and a zero then stuck.
---
 src/hdbscan.c   | 2 +-
 src/hdbscan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index dd83ee9..4440a51 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1292,7 +1292,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index c52c423..30fc045 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -125,7 +125,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From f7b7aee5808608cc703f2ec4965f6a04bcc9fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 25/62] fix: buffer overflow when D_MAX weights or core
 distances are printed

Datasets smaller than minPoints have core distance D_MAX, which prints as more
than 300 characters.
---
 src/hdbscan.c          | 2 +-
 src/undirected_graph.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 4440a51..dbd1e39 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1904,7 +1904,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[750];
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..33a9f38 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[400];
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From 420bce97af5dba062a390075b5f76eecf076ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 26/62] fix: give every PyHdbscan object its own clustering
 state

All Python objects shared one global hdbscan, so creating or destroying a
second object replaced or freed the results of the first.
---
 modules/python/src/PyHdbscan.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..3fab63d 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,8 +54,6 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
@@ -66,6 +64,7 @@ typedef struct {
     PyObject* clusterMap;
     PyObject* hierarchy;
 	index_t minPoints, cols, rows;
+	hdbscan* scan;
 } PyHdbscan;
 
 /**
@@ -74,7 +73,9 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+	if(self->scan != NULL){
+		hdbscan_destroy(self->scan);
+	}
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -102,6 +103,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 		self->minPoints = 0;
 		self->rows = 0;
 		self->cols = 0;
+		self->scan = NULL;
     }
 
     return (PyObject *)self;
@@ -136,7 +138,10 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    if(self->scan != NULL){
+        hdbscan_destroy(self->scan);
+    }
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +232,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +260,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +271,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +292,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +326,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From 33e931edc6dac6ee5ebc0eb486dc14f856e04f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 27/62] fix: raise Python exceptions for calls that cannot be
 served

Bad minPoints, unsupported arrays and calls before run() returned NULL without
an exception, dropped the labels, or crashed the interpreter.
---
 modules/python/src/PyHdbscan.c | 57 ++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 3fab63d..06f75bd 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -134,7 +134,8 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
     if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if((int)self->minPoints < 2){
+		PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return -1;
 	} 
 	
@@ -184,7 +185,22 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         return NULL;
 	}
     
-    int typenum = PyArray_TYPE(dataset);
+    if(self->scan == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "The object has not been initialised.");
+        return NULL;
+    }
+
+    if(!PyArray_Check(dataset)){
+        PyErr_SetString(PyExc_TypeError, "The dataset must be a numpy array.");
+        return NULL;
+    }
+
+    if(PyArray_NDIM((PyArrayObject*)dataset) < 1 || PyArray_NDIM((PyArrayObject*)dataset) > 2 || PyArray_SIZE((PyArrayObject*)dataset) == 0){
+        PyErr_SetString(PyExc_ValueError, "The dataset must be a non-empty array of one or two dimensions.");
+        return NULL;
+    }
+
+    int typenum = PyArray_TYPE((PyArrayObject*)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -209,7 +225,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "Unsupported datatype.");
         return NULL;
     }
 
@@ -251,15 +267,22 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+    int minPoints;
+    if (!PyArg_ParseTuple(args, "i", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(minPoints < 2){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return NULL;
 	} 
-	
+
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "run() must be called first.");
+        return NULL;
+    }
+
+	self->minPoints = (index_t)minPoints;
+	Py_XDECREF(self->labels);
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
@@ -278,11 +301,22 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
     int32_t begin, end;
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
 
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "run() must be called first.");
+        return NULL;
+    }
+
+    if(begin < 0 || end < begin || (index_t)end > self->rows){
+        PyErr_SetString(PyExc_ValueError, "The range must lie within the dataset.");
+        return NULL;
+    }
+
+    Py_XDECREF(self->clusterMap); 
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -312,6 +346,11 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
+    if(self->scan == NULL || self->scan->hierarchy == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "run() must be called first.");
+        return NULL;
+    }
+
     Py_XDECREF(self->hierarchy); 
     enum NPY_TYPES tp = NPY_SHORT;
 
-- 
2.43.0


From 26018129b89477ab73bc2ab60e8b42e36e3ca4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 28/62] fix: the hierarchy arrays given to Python own their
 data

They were views of memory that rerun() and the destruction of the object
free.
---
 modules/python/src/PyHdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 06f75bd..b4d8aa8 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -370,7 +370,8 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
         npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
     }
-- 
2.43.0


From c8f8f34fe03feb190b05497545616e78dac42399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 29/62] fix: reference and memory leaks of the Python binding

The labels, the hierarchy, the cluster map and the contiguous copy of the
dataset were never released.
---
 modules/python/src/PyHdbscan.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index b4d8aa8..6bdb83e 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -163,10 +163,13 @@ void get_labels(PyHdbscan *self, label_t *labels){
         c ="H";
     }
     
+    Py_XDECREF(self->labels);
     self->labels = PyList_New(0);
 
 	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
+		PyObject* label = Py_BuildValue(c, labels[i]);
+		PyList_Append(self->labels, label);
+		Py_DECREF(label);
 	}
 }
 
@@ -229,8 +232,6 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         return NULL;
     }
 
-    Py_INCREF(dataset);    
-    
     // Create a contigous array from dataset
     PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);
 	
@@ -253,8 +254,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
-    Py_INCREF(self->labels);
-    Py_XDECREF(dataset); // Release the dataset memory
+    Py_DECREF(d_arr); // Release the dataset memory
 
 	return Py_BuildValue("i", err);
 }
@@ -282,7 +282,6 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     }
 
 	self->minPoints = (index_t)minPoints;
-	Py_XDECREF(self->labels);
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
@@ -295,7 +294,6 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     }
 
     get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
 }
@@ -319,9 +317,9 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 
     enum NPY_TYPES tp = NPY_SHORT;
 
-    if(sizeof(label_t) == sizeof(int)) {
+    if(sizeof(index_t) == sizeof(int)) {
         tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
+    } else if (sizeof(index_t) == sizeof(long)) {
         tp = NPY_LONG;
     }
 
@@ -336,10 +334,13 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
         npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), lst->data, lst->size * sizeof(index_t));
         PyDict_SetItem(self->clusterMap, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
+    hdbscan_destroy_cluster_map(tmp);
 
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
@@ -374,9 +375,10 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 9db4e8e43f85beb264bc960d77f488ddc7249bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 30/62] fix: release the arrays used by the Java run call

The row elements were never released and the copy of the dataset, allocated
with new[], was freed with delete.
---
 modules/java/src/Hdbscan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..f49d41d 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -79,10 +79,12 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 22630048fc2efa42f9aa77c662abf580af33e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 31/62] fix: give every Java Hdbscan object its own clustering
 state

All objects shared one static hdbscan, so a second object changed the results
of reRun() on the first, and cleanHdbscan() threw UnsatisfiedLinkError because
the native function had the wrong name.
---
 modules/java/src/Hdbscan.cpp                  | 25 +++++++++++++------
 .../java/src/bw/co/roguesystems/Hdbscan.java  |  3 +++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index f49d41d..b33997d 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -42,10 +42,17 @@
 #include <iostream>
 
 using namespace clustering;
-hdbscan scan;
+
+static jfieldID getHandleField(JNIEnv *env, jobject obj){
+	return env->GetFieldID(env->GetObjectClass(obj), "handle", "J");
+}
+
+static hdbscan* getScan(JNIEnv *env, jobject obj){
+	return (hdbscan*)env->GetLongField(obj, getHandleField(env, obj));
+}
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
-	hdbscan_init(&scan, minPoints);
+	env->SetLongField(obj, getHandleField(env, obj), (jlong)new hdbscan((index_t)minPoints));
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -82,19 +89,21 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
-	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
+	hdbscan* scan = getScan(env, obj);
+	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
 	
-	return getLabelsArray(env, scan.clusterLabels, rows);
+	return getLabelsArray(env, scan->clusterLabels, rows);
 }
 
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
-	scan.reRun(newMinPts);	
-	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
+	hdbscan* scan = getScan(env, obj);
+	scan->reRun(newMinPts);	
+	return getLabelsArray(env, scan->clusterLabels, scan->numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+	getScan(env, obj)->clean();
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index dd284e1..da6993f 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -35,6 +35,9 @@ public class Hdbscan{
 	};
 
 	private int[] labels;
+
+	/** Native clustering object, set by initHdbscan */
+	private long handle;
 	
 	 /**
 	  * Initialise hdbscan*
-- 
2.43.0


From e1d7c427ee39b3e1b79be6f873cc3d82838ff937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 32/62] fix: raise Java exceptions for calls that cannot be
 served

minPoints below 2, empty or ragged datasets, and reRun() before run() or after
cleanHdbscan() crashed the JVM or read past the rows.
---
 modules/java/src/Hdbscan.cpp                  |  2 +-
 .../java/src/bw/co/roguesystems/Hdbscan.java  | 29 ++++++++++++++++++-
 modules/java/src/bw_co_roguesystems_Hdbscan.h |  4 +--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b33997d..9be1630 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -104,6 +104,6 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 	return getLabelsArray(env, scan->clusterLabels, scan->numPoints);
 }
 
-JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanImpl(JNIEnv *env, jobject obj){
 	getScan(env, obj)->clean();
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index da6993f..449e764 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -64,13 +64,22 @@ public class Hdbscan{
 	 * Call this method to clean up C allocated memory
 	 * 
 	 */ 
-	public native void cleanHdbscan();
+	public void cleanHdbscan(){
+		labels = null;
+		cleanImpl();
+	}
+
+	private native void cleanImpl();
 	
 	/**
 	 * 
 	 * @param minPoints
 	 */
 	public Hdbscan(int minPoints){
+		if(minPoints < 2){
+			throw new IllegalArgumentException("minPoints must be at least 2");
+		}
+
 		initHdbscan(minPoints);
 	}
 	
@@ -79,6 +88,16 @@ public class Hdbscan{
 	 * @param dataset
 	 */
 	public void run(double[][] dataset){
+		if(dataset == null || dataset.length == 0){
+			throw new IllegalArgumentException("the dataset is empty");
+		}
+
+		for(double[] row : dataset){
+			if(row == null || row.length != dataset[0].length){
+				throw new IllegalArgumentException("all rows must have the same length");
+			}
+		}
+
 		labels = runImpl(dataset);
 	}
 	
@@ -87,6 +106,14 @@ public class Hdbscan{
 	 * @param minPts
 	 */
 	public void reRun(int minPts){
+		if(minPts < 2){
+			throw new IllegalArgumentException("minPts must be at least 2");
+		}
+
+		if(labels == null){
+			throw new IllegalStateException("run must be called first");
+		}
+
 		labels = reRunImpl(minPts);
 	}
 	
diff --git a/modules/java/src/bw_co_roguesystems_Hdbscan.h b/modules/java/src/bw_co_roguesystems_Hdbscan.h
index c59c8f4..cf61eee 100644
--- a/modules/java/src/bw_co_roguesystems_Hdbscan.h
+++ b/modules/java/src/bw_co_roguesystems_Hdbscan.h
@@ -33,10 +33,10 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl
 
 /*
  * Class:     bw_co_roguesystems_Hdbscan
- * Method:    cleanHdbscan
+ * Method:    cleanImpl
  * Signature: ()V
  */
-JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanImpl
   (JNIEnv *, jobject);
 
 #ifdef __cplusplus
-- 
2.43.0


From f4603611498d2991c12dba946b0ec1656db0c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 33/62] fix: release the node of a linkedlist element removed
 by a lookup

Only the data was handed to the caller, the node itself was leaked.
---
 modules/collections/src/linkedlist.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 421e970..4885422 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -281,13 +281,21 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
 {
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
-    // Unhook the node from the list
+    if(tmp == NULL)
+    {
+        return NULL;
+    }
+
+    void* found = tmp->data;
+
+    // Unhook the node from the list, the caller owns the data of a removed node
     if(remove == 1)
     {
         linkedlist_node_unhook(list, tmp);
+        free(tmp);
     }
 
-    return tmp ? tmp->data : tmp;
+    return found;
 }
 
 /**
-- 
2.43.0


From d2a5721f55dea39a5d3e98eac1c3c77b36b8abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:38 +0000
Subject: [PATCH 34/62] fix: sorting clusters by a confidence that is not a
 number ends

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index dbd1e39..3987afc 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1554,7 +1554,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		while((up < down) && !(d_data[up] > x)) {
 			up++;
 		}
 
-- 
2.43.0


From ba78c1769f58729a5aaf27ec7ba357a40d1ac9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 35/62] fix: float and long coordinates whose difference does
 not fit their type

FLT_MAX and -FLT_MAX were infinitely far apart, LONG_MAX and LONG_MIN one
unit apart.
---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index d794ffe..ead823d 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -165,7 +165,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_FLOAT) {
 
 					float* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 
 				} else if(dis->datatype == H_INT) {
 
@@ -174,7 +174,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From e31990a05c45cc37ce32871a66b0afb32cac276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 36/62] fix: stack overflow when the minimum number of points
 is huge

---
 src/distance.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index ead823d..66869a7 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -215,6 +215,13 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
  */
 void distance_get_core_distances(distance *dis)
 {
+	/// With too few points there is no such neighbour, whatever its number
+	if(dis->numNeighbors >= dis->rows) {
+		for (index_t i = 0; i < dis->rows; i++) {
+			dis->coreDistances[i] = D_MAX;
+		}
+		return;
+	}
 	
 	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
-- 
2.43.0


From 77b426f4f44412e20c565d8b7918f7778f11fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 37/62] fix: clearing a hashtable hashed keys that were already
 released

---
 modules/collections/src/hashtable.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 2b57a6a..bbc181a 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -332,20 +332,13 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
-    for(size_t i = 0; i < set_size(htbl->keys); i++)
+    /// Walk the buckets rather than the keys: a key can not be hashed
+    /// any more once a key colliding with it has had it released.
+    for(size_t bucket = 0; bucket < htbl->buckets; bucket++)
     {
-        set_value_at(htbl->keys, i, key);
-        size_t bucket = htbl->key_hash(key, htbl->buckets);
         entry = htbl->table[bucket];
         htbl->table[bucket] = NULL; /// unhook the entries from the bucket
 
-        /// The colliding entries will be removed as well 
-        /// so check to make sure we do not attempt to remove again.
-        if(entry == NULL)
-        {
-            continue;
-        }
-
         while(entry)
         {
             tmp = entry;
-- 
2.43.0


From e5eff0506ae3898295dd282eddf37ab70c75a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 38/62] fix: detaching more points than a cluster has wrapped
 its size around and reported success

---
 src/cluster.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index aa8f43d..bbdfdf6 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -121,12 +121,7 @@ void cluster_destroy(cluster* cl){
  */
 int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 
-	cl->numPoints = (index_t)(cl->numPoints - numPoints);
-	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
-
-	if (cl->numPoints == 0)
-		cl->deathLevel = level;
-	else if (cl->numPoints < 0){
+	if (numPoints > cl->numPoints){
 		
 		char s[100];
 		sprintf(s, "cluster_detach_points - Cluster %d has %d points.\n", cl->label, cl->numPoints);
@@ -134,6 +129,12 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 		return CLUSTER_ERROR;
 	}
 
+	cl->numPoints = (index_t)(cl->numPoints - numPoints);
+	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
+
+	if (cl->numPoints == 0)
+		cl->deathLevel = level;
+
 	return CLUSTER_SUCCESS;
 }
 
-- 
2.43.0


From c3633632941e52784acb9e3e2ebc8547cb1358f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 39/62] fix: hdbscan::calculateOutlierScores computes the
 scores

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 30fc045..e401792 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From f064b3856f0f120080f6bda998882f2040db7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 40/62] fix: sorting an empty list of clusters in C++ does
 nothing

---
 src/hdbscan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e401792..819b871 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,10 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	if(clusters.empty()) {     /// Nothing to sort
+		return;
+	}
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From 29b53978b343d6d3794f2cd40cd6484af91c2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:46 +0000
Subject: [PATCH 41/62] fix: sorting an empty map gives an empty list instead
 of aborting

---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3987afc..28b1957 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1623,7 +1623,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1633,7 +1633,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+		distances = array_list_init(hashtable_size(distanceMap) + 1, sizeof(distance_t), NULL);
 
 	} else{
 		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
@@ -1712,7 +1712,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1722,7 +1722,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			clusters->compare = short_compare;
 		}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+		lengths = array_list_init(hashtable_size(clusterTable) + 1, sizeof(distance_t), NULL);
 	} else{
 		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
-- 
2.43.0


From 3b2f22b324262622c7e116b3acb02242efcc0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 42/62] fix: keep minPoints of a PyHdbscan when it is
 initialised again with a bad value

---
 modules/python/src/PyHdbscan.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 6bdb83e..10bf79d 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -131,18 +131,20 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
         c ="H";
     }
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    index_t minPoints;
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &minPoints))
         return -1;
     
-    if((int)self->minPoints < 2){
+    if((int)minPoints < 2){
 		PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
 		return -1;
 	} 
 	
+    self->minPoints = minPoints;
     if(self->scan != NULL){
         hdbscan_destroy(self->scan);
     }
-    self->scan = hdbscan_init(NULL, self->minPoints);
+    self->scan = hdbscan_init(NULL, minPoints);
 	
     return 0;
 }
-- 
2.43.0


From ed553225c408ea9de5564063e6f3a1dae383790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 43/62] fix: PyHdbscan bounds labels and groups by the points
 of the run, not by a writable member

---
 modules/python/src/PyHdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 10bf79d..f70c117 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -168,7 +168,7 @@ void get_labels(PyHdbscan *self, label_t *labels){
     Py_XDECREF(self->labels);
     self->labels = PyList_New(0);
 
-	for(uint i = 0; i < self->rows; i++){
+	for(uint i = 0; i < self->scan->numPoints; i++){
 		PyObject* label = Py_BuildValue(c, labels[i]);
 		PyList_Append(self->labels, label);
 		Py_DECREF(label);
@@ -284,7 +284,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     }
 
 	self->minPoints = (index_t)minPoints;
-	int err = hdbscan_rerun(self->scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, (index_t)minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -310,7 +310,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         return NULL;
     }
 
-    if(begin < 0 || end < begin || (index_t)end > self->rows){
+    if(begin < 0 || end < begin || (index_t)end > self->scan->numPoints){
         PyErr_SetString(PyExc_ValueError, "The range must lie within the dataset.");
         return NULL;
     }
-- 
2.43.0


From d40fede5366c3fbdf1efdf26c034f072f24f986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:57 +0000
Subject: [PATCH 44/62] fix: compute the places of distances in size_t so that
 large datasets do not wrap 32 bits

---
 src/distance.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 66869a7..0d90c2d 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -101,6 +101,19 @@ void distance_clean(distance* d){
 	}
 }
 
+/**
+ * @brief Where the distance between row and col (row < col) is in the truncated
+ * distance vector. With large datasets this does not fit in 32 bits.
+ * 
+ * @param rows 
+ * @param row 
+ * @param col 
+ * @return size_t 
+ */
+static inline size_t distance_offset(size_t rows, size_t row, size_t col) {
+	return rows * row + col - (row + 1) * (row + 2) / 2;
+}
+
 /**
  * \brief Get the distance between the elements row and col. This function used the 
  * TRIANGULAR_H function to find the map the rwo and col values into the truncated 
@@ -114,12 +127,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = distance_offset(dis->rows, row, col);
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = distance_offset(dis->rows, col, row);
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +152,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -191,9 +204,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 			sum = (distance_t)sqrt(sum);
 
 			// Calculate the linearised upper triangular matrix offset
-			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
-			dis->distances[c] = sum;			
+			dis->distances[distance_offset(dis->rows, i, j)] = sum;			
 		}
 	}
 	distance_get_core_distances(dis);
-- 
2.43.0


From 48068d5dfd1d684e9eb0a48dbef5272b33748fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 45/62] fix: distance_destroy tests for NULL before it cleans

---
 src/distance.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 0d90c2d..88e7c2a 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -79,9 +79,10 @@ distance* distance_init(distance* dis, calculator cal, enum HTYPES datatype) {
  * @param d 
  */
 void distance_destroy(distance* d) {
-	distance_clean(d);
-	if(d != NULL)
+	if(d != NULL) {
+		distance_clean(d);
 		free(d);
+	}
 }
 
 /**
-- 
2.43.0


From daa9c671591aff1bab609633c5f1fd604d32b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 46/62] fix: distance_compute releases the result it replaces

---
 src/distance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index 88e7c2a..5cdc837 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -149,6 +149,8 @@ distance_t distance_get(distance* dis, index_t row, index_t col) {
  * @param numNeighbors 
  */
 void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
+	/// An earlier result of the same object is replaced
+	distance_clean(dis);
 	dis->numNeighbors = numNeighbors;
 	
 	dis->rows = rows;
-- 
2.43.0


From 8ae8613a19412d213f1b67695a0f724caf875955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:43 +0000
Subject: [PATCH 47/62] fix: a graph without lists of edges has no edges
 (UndirectedGraph())

---
 src/undirected_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 33a9f38..e35580a 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -86,7 +86,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 		}
 	}
 	index_t vertexOne, vertexTwo;
-	for (index_t i = 0; i < g->verticesA->size; i++) {
+	for (index_t i = 0; g->verticesA != NULL && i < g->verticesA->size; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
-- 
2.43.0


From e80a5d166e6704510f5812aef72bdcd909b10b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 48/62] fix: get_prime gives a prime number, not the number
 after min

---
 modules/collections/src/primes.c | 36 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..ea936e8 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -38,25 +38,35 @@
  */
 #include "collections/primes.h"
 
-int32_t get_prime(int32_t min)
+/**
+ * Trial division is enough for the sizes of hash tables.
+ */
+static int32_t is_prime(int32_t num)
 {
-    int32_t prime, n_primes = 0;
+    if(num < 2)
+    {
+        return 0;
+    }
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    for(int32_t i = 2; i <= num / i; i++)
     {
-        for (int j = 0; i < n_primes; i++)
+        if(num % i == 0)
         {
-            if (i % primes[j] == 0) {
-                goto not_prime;
-            }
+            return 0;
         }
+    }
 
-        // Once we have found a prime, then we need to exit the loop
-        prime = i;
-        break;
-        
-        not_prime:
-            ;
+    return 1;
+}
+
+int32_t get_prime(int32_t min)
+{
+    int32_t prime = min < 2 ? 2 : min;
+
+    // INT_MAX is a prime number, there is none larger than that.
+    while(prime < INT_MAX && (prime <= min || !is_prime(prime)))
+    {
+        prime++;
     }
 
     return prime;
-- 
2.43.0


From c2ef498d0f9df94435ee107ad0ce5bf85b432137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 49/62] fix: find_prime_less_than goes on beyond the table of
 primes

---
 .../collections/include/collections/primes.h    |  2 +-
 modules/collections/src/primes.c                | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index ea936e8..b548d62 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -112,10 +112,15 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    // The table does not reach num, so we have to calculate the prime.
+    if(num > primes[p_sz-1])
+    {
+        do {
+            num--;
+        } while(!is_prime(num));
+
+        return num;
+    }
+
     return binary_search_primes(0, p_sz-1, num);
-    //}
-}
\ No newline at end of file
+}
-- 
2.43.0


From e454dbd4bf43b28e05118e929123c0467b27d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:53 +0000
Subject: [PATCH 50/62] fix: hash double and float keys by their bits, negative
 and large ones do not convert to size_t

---
 modules/utils/src/utils.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index bac32c8..b3019df 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -41,6 +41,7 @@
 
 #include "hdbscan/utils.h"
 #include <stdlib.h>
+#include <stdint.h>
 
 size_t highestPowerof2(size_t n)
 {
@@ -343,16 +344,18 @@ size_t char_hash(void* key, size_t buckets)
 
 size_t double_hash(void* key, size_t buckets)
 {
-    double *db = (double *)key;
-	size_t tmp = (size_t)(*db);
-    return tmp % buckets;
+    double db = (*(double *)key) + 0.0; /// -0.0 and 0.0 are the same key
+	uint64_t tmp; /// the value itself may not fit in an integer
+	memcpy(&tmp, &db, sizeof(tmp));
+    return (size_t)tmp % buckets;
 }
 
 size_t float_hash(void* key, size_t buckets)
 {
-    float *db = (float *)key;
-	size_t tmp = (size_t)(*db);
-    return tmp % buckets;
+    float db = (*(float *)key) + 0.0f; /// -0.0 and 0.0 are the same key
+	uint32_t tmp; /// the value itself may not fit in an integer
+	memcpy(&tmp, &db, sizeof(tmp));
+    return (size_t)tmp % buckets;
 }
 
 size_t str_hash(void *key, size_t buckets)
-- 
2.43.0


From 013dac084b95772d8b73c84da13aacd59caa26ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:53 +0000
Subject: [PATCH 51/62] fix: hash the characters of a string key, not the bytes
 of the pointer to them

---
 modules/utils/src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index b3019df..e110ba1 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -360,7 +360,7 @@ size_t float_hash(void* key, size_t buckets)
 
 size_t str_hash(void *key, size_t buckets)
 {
-    const char *cptr = key;
+    const char *cptr = *(const char **)key; /// a string key is a pointer to the characters
     unsigned int val = 0;
 
     while(*cptr != '\0')
-- 
2.43.0


From 20428cef800492c9eff47f13a4ee1ce0ce5f5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:53 +0000
Subject: [PATCH 52/62] fix: define ptr_ptr_compare, which utils.h declares

---
 modules/utils/src/utils.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index e110ba1..e4fe289 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -294,6 +294,19 @@ int32_t ptr_compare(const void *ptr_a, const void *ptr_b){
 	return (-1);
 }
 
+int32_t ptr_ptr_compare(const void *ptr_a, const void *ptr_b){
+	void **a = *(void ***) ptr_a;
+	void **b = *(void ***) ptr_b;
+
+	if (*a > *b) {
+		return (1);
+	}
+	if (*a == *b) {
+		return (0);
+	}
+    
+	return (-1);
+}
 
 size_t get_htype_size(enum HTYPES type)
 {
-- 
2.43.0


From 55b059f52f9c28ba904b97a03469fcdefad0ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:18 +0000
Subject: [PATCH 53/62] fix: define outlier_score_init and
 outlier_score_destroy under the names outlier_score.h declares

---
 src/outlier_score.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/outlier_score.c b/src/outlier_score.c
index b60937b..a727c45 100644
--- a/src/outlier_score.c
+++ b/src/outlier_score.c
@@ -39,15 +39,15 @@
 #include "hdbscan/outlier_score.h"
 #include "hdbscan/logger.h"
 
-outlier_score* create_outlier_score(outlier_score* os, distance_t score, distance_t coreDistance, index_t id){
+outlier_score* outlier_score_init(outlier_score* os, distance_t score, distance_t coreDistance, index_t id){
 	if(os == NULL)
 		os = (outlier_score*)malloc(sizeof(outlier_score));
 
 	if(os == NULL){
 	#ifdef DEBUG
-		logger_write(FATAL, "create_outlier_score - Could not allocate memory for Outlier Score");
+		logger_write(FATAL, "outlier_score_init - Could not allocate memory for Outlier Score");
 	#else
-		printf("FATAL: create_outlier_score - Could not allocate memory for Outlier Score");
+		printf("FATAL: outlier_score_init - Could not allocate memory for Outlier Score");
 	#endif
 	} else{
 
@@ -57,7 +57,7 @@ outlier_score* create_outlier_score(outlier_score* os, distance_t score, distanc
 	}
 	return os;
 }
-void destroy_outlier_score(outlier_score* os){
+void outlier_score_destroy(outlier_score* os){
 	free(os);
 }
 
-- 
2.43.0


From f8f61649cd1a2952a824a45d771387d72984da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:18 +0000
Subject: [PATCH 54/62] fix: define constraint_init under the name constraint.h
 declares

---
 src/constraint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/constraint.c b/src/constraint.c
index e6c2f3b..7f9cdbd 100644
--- a/src/constraint.c
+++ b/src/constraint.c
@@ -41,15 +41,15 @@
 #include "hdbscan/logger.h"
 #endif
 
-constraint* constraint_create(constraint* c, int pointA, int pointB, CONSTRAINT_TYPE type){
+constraint* constraint_init(constraint* c, int pointA, int pointB, CONSTRAINT_TYPE type){
 	if(c == NULL)
 		c = (constraint*)malloc(sizeof(constraint));
 
 	if(c == NULL){
 	#ifdef DEBUG
-		logger_write(FATAL, "constraint_create - Could not allocate memory for constraint\n");
+		logger_write(FATAL, "constraint_init - Could not allocate memory for constraint\n");
 	#else
-		printf("FATAL: constraint_create - Could not allocate memory for constraint\n");
+		printf("FATAL: constraint_init - Could not allocate memory for constraint\n");
 	#endif
 	} else{
 
-- 
2.43.0


From c5a8ba5ea848e85b57678b78b77a9ed306247e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:36 +0000
Subject: [PATCH 55/62] fix: the search for a prime number lost arguments that
 are prime themselves

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index b548d62..15d2aba 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -93,7 +93,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From 4521a6f7ff21669f255401b48733ca7269252422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 56/62] fix: str_hash is given the characters, the table looks
 them up behind the key

---
 modules/collections/src/hashtable.c | 14 +++++++++++++-
 modules/utils/src/utils.c           |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index bbc181a..a1337ff 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -76,6 +76,18 @@ void hashtable_entry_destroy(hashtable_entry *entry, void* data, size_t dsize);
  */
 hashtable_entry* hashtable_lookup_entry(hashtable* htbl, void* key);
 
+/**
+ * @brief A string key is stored as the pointer to its characters.
+ * 
+ * @param key 
+ * @param buckets 
+ * @return size_t 
+ */
+static size_t hashtable_str_hash(void* key, size_t buckets)
+{
+    return str_hash(*(char **)key, buckets);
+}
+
 /**
  * @brief 
  * 
@@ -169,7 +181,7 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     {
         htbl->key_hash = float_hash;
     } else if(htbl->ktype == H_STRING) {
-        htbl->key_hash = str_hash;
+        htbl->key_hash = hashtable_str_hash;
     } else {
         htbl->key_hash = NULL;
     }
diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index e4fe289..a4a9680 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -373,7 +373,7 @@ size_t float_hash(void* key, size_t buckets)
 
 size_t str_hash(void *key, size_t buckets)
 {
-    const char *cptr = *(const char **)key; /// a string key is a pointer to the characters
+    const char *cptr = key;
     unsigned int val = 0;
 
     while(*cptr != '\0')
-- 
2.43.0


From 1300c0918381c9537948195f92c94adf6d222a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:00 +0000
Subject: [PATCH 57/62] fix: report files that can not be opened for the
 hierarchy instead of writing to NULL

---
 src/hdbscan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 28b1957..63d365b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1852,6 +1852,10 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
+		if(visFile == NULL){
+			logger_write(ERROR, "hdbscan_print_hierarchies - Could not open the visualization file.\n");
+			return;
+		}
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
@@ -1860,6 +1864,10 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
+		if(hierarchyFile == NULL){
+			logger_write(ERROR, "hdbscan_print_hierarchies - Could not open the hierarchy file.\n");
+			return;
+		}
 	}
 	
 	char s[100];
-- 
2.43.0


From 4fcd4e5d49d0cb3571b4df6f4a246b1a41ef0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 58/62] fix: an array list which can not be resized keeps the
 memory it has

---
 modules/collections/src/list.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 4e79a7e..b487f7b 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* data = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
-		return -1;
+	if(data == NULL){
+		return -1;		// The list keeps the memory it has
 	}
 
+	list->data = data;
 	list->max_size = newmax;
 
 	return 1;
@@ -280,8 +281,11 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
-		list->max_size = 1;
+		void* data = realloc(list->data, list->step);
+		if(data != NULL) {
+			list->data = data;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From 8ea1be749d962f6374d90b02ffa03c399f27fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 59/62] fix: inserting into an array list which can not grow
 wrote behind its memory

---
 modules/collections/src/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index b487f7b..c776d58 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -209,7 +209,9 @@ int32_t array_list_append(ArrayList* list, void* data)
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
 	if(list->size == list->max_size) {
-       array_list_grow(list);
+		if(array_list_grow(list) < 0) {
+			return 0;
+		}
     }
 
     size_t t1 = pos * list->step;					// Beginning of the source
-- 
2.43.0


From af3e93119ef063d5327e506740701384ba3f0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 60/62] fix: a node of a linked list without memory for its
 data wrote to NULL

---
 modules/collections/src/linkedlist.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 4885422..9a02376 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -80,7 +80,11 @@ linkedlist *linkedlist_init(size_t step)
 void node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
-    memcpy(nd->data, data, step);
+
+    if(nd->data != NULL)
+    {
+        memcpy(nd->data, data, step);
+    }
 }
 
 /**
@@ -103,6 +107,12 @@ node* node_creator(void* data, enum HTYPES type)
     nd->next = NULL;
 
     node_set_data(nd, data, type);
+
+    if(nd->data == NULL)
+    {
+        free(nd);
+        return NULL;
+    }
     
     return nd;
 }
-- 
2.43.0


From e6ab79ec6289f8e9f564ba68e8c6ed469759eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 61/62] fix: a hashtable which is denied memory wrote to NULL
 and lost what it held

---
 modules/collections/src/hashtable.c | 42 +++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index a1337ff..c758891 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -157,6 +157,13 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->collisions = 0;
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table keys memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
 
     /**
      * @brief Determine the function to use for key hashing
@@ -199,8 +206,19 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
 
     if(entry == NULL) /// The key is not in the table
     {
+        // Have room for the key before anything is changed
+        if(htbl->keys->size == htbl->keys->max_size && array_list_grow(htbl->keys) < 0)
+        {
+            return 0;
+        }
+
         entry = hashtable_set_entry(htbl, entry, key, value);
 
+        if(entry == NULL)
+        {
+            return 0;
+        }
+
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
         {
@@ -219,6 +237,10 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+        if(tmp == NULL)
+        {
+            return 0;
+        }
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -344,6 +366,13 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
+    if(key == NULL || data == NULL)
+    {
+        free(key);
+        free(data);
+        return 0;
+    }
+
     /// Walk the buckets rather than the keys: a key can not be hashed
     /// any more once a key colliding with it has had it released.
     for(size_t bucket = 0; bucket < htbl->buckets; bucket++)
@@ -412,12 +441,25 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
 
+        if(entry == NULL)
+        {
+            return NULL;
+        }
+
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
 
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->data);
+            free(entry->key);
+            free(entry);
+            return NULL;
+        }
+
         // Make sure next and prev are NULL
         entry->next = NULL;
         entry->prev = NULL;
-- 
2.43.0


From 0516f0140d9ae172f0f8da5630874b432aa92ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:16 +0000
Subject: [PATCH 62/62] fix: logging that there is no memory needed memory

---
 modules/utils/src/logger.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..ec372d6 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -46,17 +46,12 @@
 #include <time.h>
 
 static FILE* log_file;
-static char* getDateString() {
+static void getDateString(char* date, size_t size) {
     // Initialize and get current time
     time_t t = time( NULL );
 
-    // Allocate space for date string
-    char* date = (char*)malloc( 100 );
-
     // Format the time correctly
-    strftime(date, 100, "[%F %T]", localtime(&t));
-
-    return date;
+    strftime(date, size, "[%F %T]", localtime(&t));
 }
 
 void logger_init()
@@ -85,7 +80,9 @@ void logger_write(enum LOGTYPE type, const char* str) {
     assert(log_file != NULL);
 #endif
 
-    char* date = getDateString();
+    // Being out of memory is logged too, this must not need any
+    char date[100];
+    getDateString(date, sizeof(date));
     const char* tp;
 
     if(type == FATAL) {
@@ -117,7 +114,6 @@ void logger_write(enum LOGTYPE type, const char* str) {
         printf("%s", str);
     #endif
     }
-    free(date);
 }
 
 void logger_close() {
-- 
2.43.0

