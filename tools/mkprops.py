"""Writes properties.jsonl (kept as a program so that the wording stays reviewable)."""
import json, os
H='src/hdbscan.c'; D='src/distance.c'; CL='src/cluster.c'; G='src/undirected_graph.c'; O='src/outlier_score.c'
COL='modules/collections/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
NOT='The repository has no test of the clustering code at all; its seven tests exercise a few fixed collection histories. '

p('C01','Pairwise distances are the Euclidean distances of the given data',
 'For every data set of every supported element type, the distance kept for each pair of points is the Euclidean distance between the two points, is the same in both directions, and is zero between a point and itself. This holds whether the data is given row by row (one point per row) or as a flat collection of one-dimensional points, and the caller\'s data is not modified.',
 ['inputs'],'every data set (number of points, dimensions, element type, magnitudes including the ends of the integer types, both layouts)',
 NOT+'All element types, layouts and magnitudes have to agree; a sample of one type cannot show the others.',
 [D,H],[('distance_compute',D),('distance_get and the triangular index',D)],['distance read back after a clustering run'],[('distance triangle','distance of every pair',D)])
p('C02','Core distance is the distance to the k-th nearest neighbour',
 'For every point the core distance is the distance to its (minimum points - 1)-th nearest other point, counting coincident points and ties by multiplicity. When the data set has fewer points than the minimum, every core distance is the largest representable value.',
 ['inputs'],'every data set and every minimum number of points >= 2, with any pattern of ties and duplicates',
 NOT+'The error cases are particular orders of equal and increasing neighbour distances, which samples do not reach.',
 [D],[('distance_get_core_distances',D)],['core distances after run and rerun'])
p('C03','The spanning tree is a minimum one, with one self edge per point',
 'After a run the kept graph consists of one edge from every point to itself weighted with its core distance and of a spanning tree of all points. Every tree edge is weighted with the mutual reachability distance of its ends and the total weight is minimal, so that connectivity through edges of at most any weight is the connectivity of the complete mutual reachability graph at that weight.',
 ['inputs'],'every data set with at least as many points as the minimum, including ties between edges',
 NOT+'Minimality is a statement about all spanning trees of every input.',
 [H,G],[('hdbscan_construct_mst',H),('graph_init',G)],['graph of the result'])
p('C04','Hierarchy levels are exactly the density-connected partitions',
 'The levels of the hierarchy are exactly the weights at which some cluster loses points, from the sparsest to the densest, and end with a level at which every point is noise. At each level two points carry the same non-noise label exactly if they are connected by mutual reachability distances below the previous level inside a component of at least the minimum number of points; a component that merely shrinks keeps its label, and components of a real split get fresh consecutive labels.',
 ['inputs'],'every data set with at least as many points as the minimum',
 NOT+'The partition must be right at every level of every input; ties remove several edges at once.',
 [H],[('hdbscan_compute_hierarchy_and_cluster_tree',H)],['rows of the hierarchy'])
p('C05','The cluster tree accounts for every point of every cluster',
 'Every cluster of the tree has the parent it split from, the level of birth and of death, the noise points it lost, and a stability equal to the sum over its departing points of the reciprocal of the level of departure minus the reciprocal of the level of birth. Each point of a cluster leaves it exactly once, as noise or into a child, the lowest level of death below each cluster is propagated to it, and infinite stability is reported exactly if some cluster has coincident points at death.',
 ['inputs'],'every data set and minimum number of points, including data with coincident points',
 NOT+'Sums, parents and membership must be right for every tree shape.',
 [H,CL],[('hdbscan_create_new_cluster',H),('cluster_detach_points',CL),('hdbscan_propagate_tree',H)],['list of clusters'])
p('C06','The flat clustering is the optimal non-overlapping selection',
 'The selected clusters are pairwise disjoint, never include the root, and have the greatest total stability of all such selections. When a cluster and the best selection below it tie, the cluster itself is selected.',
 ['inputs'],'every data set and minimum number of points, every tree shape, ties included',
 NOT+'Optimality quantifies over all antichains of every tree.',
 [H,CL],[('cluster_propagate',CL),('hdbscan_propagate_tree',H)],['selected descendants of the root'])
p('C07','Flat labels are membership in the selected clusters at birth',
 'A point is labelled with the selected cluster it belonged to when that cluster was born, and with noise if it belonged to none. Hence every class of the labelling has at least the minimum number of points and the labels are exactly the labels of the selected clusters.',
 ['inputs'],'every data set and minimum number of points',
 NOT+'Requires agreement between labels, hierarchy levels and the selection on every input.',
 [H],[('hdbscan_find_prominent_clusters',H)],['label array'])
p('C08','Outlier scores follow their definition and are sorted',
 'Every point has exactly one outlier score, which is one minus the ratio of the lowest level of death below the last cluster of the point to the level at which it became noise (zero when the two coincide), and lies between zero and one. The scores are listed in ascending order, ties ordered by core distance and then by the number of the point.',
 ['inputs'],'every data set and minimum number of points, coincident points included',
 NOT+'Ordering and value must hold for every point of every input.',
 [H,O],[('hdbscsan_calculate_outlier_scores',H),('outlier_score_compare',O)],['outlier score array'])
p('C09','Results do not depend on what the object computed before',
 'The results of a run depend only on the data set and the minimum number of points, and the results of a rerun only on the data set of the last run and the new minimum: neither the earlier runs and reruns of the object, cleaning it, nor the way it was allocated changes them.',
 ['histories','inputs'],'every sequence of run, rerun and clean on one object with any data sets and minima',
 NOT+'Stale state shows only in sequences of several runs with different sizes.',
 [H,D],[('hdbscan_run / hdbscan_rerun / hdbscan_minimal_clean',H)],['all results after every call of a sequence'])
p('C10','Object life cycles neither leak, corrupt memory, nor crash',
 'For every sequence of initialisation, run, rerun, clean, analysis and destruction of clustering objects and of operations on collections, everything allocated is released exactly once and no memory is read after release, before initialisation or outside its bounds. The object may live in memory supplied by the caller or be allocated by the library.',
 ['histories','inputs'],'every life cycle history of heap and caller-supplied objects, with analysis results created and destroyed in between',
 NOT+'No test looks at allocation; ownership errors need particular histories.',
 [H,D,CL,G],[('hdbscan_clean / hdbscan_destroy / hdbscan_minimal_clean',H),('distance_clean',D),('graph_clean',G)],['allocation calls made by the library'])
p('C11','Results are the same for every number of threads and schedule',
 'A run gives the same distances, tree, hierarchy, selection, labels, scores and statistics whatever the number of threads and however they are interleaved. No two threads access the same memory location without synchronisation when one of them writes.',
 ['schedules','inputs','configurations'],'every number of threads and every interleaving of the parallel regions',
 NOT+'Tests run one schedule; races appear under particular ones.',
 [H,D,CL],[('OpenMP parallel regions','src/hdbscan.c, src/distance.c')],['results per thread count','memory accesses of the parallel regions'])
p('C12','Separate objects do not influence each other',
 'Operations on one clustering object change no result of another: any interleaving of the operations of several objects, also when made from different threads, gives each the results it gives alone.',
 ['histories','schedules'],'every interleaving of the operations of two or more objects',
 NOT+'Only one object is ever alive in a test; hidden shared state needs two.',
 [H,D,CL,'modules/utils/src/logger.c'],[('absence of shared mutable state',H)],['results of every object'])
p('C13','Clustering ignores point order, rigid motions and uniform scaling',
 'Permuting the points permutes the results: the hierarchy, and the partition into clusters and noise unless stabilities tie up to rounding, are the same up to the names of points and clusters. Translating, reflecting or permuting coordinates changes nothing, and multiplying all coordinates by a power of two multiplies distances and levels by it and keeps the labels.',
 ['inputs'],'every data set, every permutation of its points, every isometry and scale exactly representable',
 NOT+'Relates two executions; tests look at single ones.',
 [H,D],[('tie handling by levels rather than by position',H)],['results of the transformed data'])
p('C14','Every storage type configuration computes the same clustering',
 'With every supported choice of the types for labels, indices and distances the library gives the same results on data whose sizes, labels and distances fit the chosen types.',
 ['configurations','inputs'],'all supported combinations of label, index and distance type',
 NOT+'Tests are built in one configuration.',
 [H,D,G,'config.h.in'],[('type dependent comparison functions',H)],['results per configuration'])
p('C15','The array list behaves as a sequence',
 'Every operation of the array list (append, insert, read, replace, remove, pop, find, sort, clear, size, emptiness) has the effect and the return value it has on a mathematical sequence, at every capacity and for every element type. Operations on positions or elements that do not exist report failure and leave the list unchanged.',
 ['histories'],'every history of operations on lists of every element type and initial capacity',
 'The tests run a few fixed histories on integer lists; growth, shrinking and removal interact only in longer ones.',
 [COL+'list.c'],[('array_list_*',COL+'list.c')],['contents and return value after every call'])
p('C16','The set holds each element once and stays ordered',
 'The set behaves as a mathematical set under every history: inserting an element already present reports so and changes nothing, removal removes exactly the element asked for, membership and size are right, and the elements are kept in ascending order.',
 ['histories'],'every history of set operations for every element type',
 'The tests run fixed histories; ordering errors need particular insertion orders.',
 [COL+'set.c'],[('set_insert / set_find by binary search',COL+'set.c')],['contents and return value after every call'])
p('C17','The hashtable behaves as a map under every history',
 'Under every history of insertions, replacements, lookups, removals and clearing, the hashtable holds exactly the associations of a mathematical map, for every kind of key whose comparison and hash agree and every number of buckets, also when keys collide. Replacing a value hands back the old one, and the list of keys contains every present key exactly once.',
 ['histories'],'every history of operations, every distribution of keys over buckets',
 'The tests use few keys without removals from the middle of a collision chain.',
 [COL+'hashtable.c'],[('bucket chains and key set',COL+'hashtable.c')],['lookups of all keys after every call'])
p('C18','The linked list is one sequence read in either direction',
 'Under every history of additions at either end, lookups with and without removal, removals and clearing, reading the list from the front gives the reverse of reading it from the back, and both agree with a mathematical sequence subjected to the same operations.',
 ['histories'],'every history of linked list operations',
 'The tests follow forward links only and few removals.',
 [COL+'linkedlist.c'],[('linkedlist_* link maintenance',COL+'linkedlist.c')],['forward and backward contents after every call'])
p('C19','The cluster map groups every point under its label',
 'The map built from a label array contains one group per distinct label of the given range, and each group lists exactly the positions carrying that label in ascending order, noise included.',
 ['inputs'],'every label array and every range of it',
 NOT+'Grouping must hold for any labels and sizes.',
 [H],[('hdbscan_create_cluster_map',H)],['the returned map'])
p('C20','Distance extremes and confidences of clusters are exact',
 'For every group of points the reported extremes are the least positive and the greatest core distance of its points and the least positive and the greatest distance between two of its points, whatever the order of the points, the least being zero if all core distances are zero and the two distance extremes being the largest and the smallest positive value of the type if no two points are apart. After the statistics the confidence of a group is the difference of the greatest ratio of extremes of any group and its own ratio, as a percentage of the former.',
 ['inputs'],'every data set and every grouping of its points',
 NOT+'Extremes depend on every pair.',
 [H],[('hdbscan_get_min_max_distances',H),('hdbscan_calculate_stats',H)],['the returned map'])
p('C21','Summary statistics match their definitions',
 'Mean, largest value, standard deviation, variance, skewness and kurtosis computed for the ratios of cluster distance extremes equal their sample definitions (variance over one less than the number of groups, skewness and excess kurtosis as means of cubed and fourth standardised deviations) over all groups of the map. The validity grade is the sum over core and pair distances of 2, 1 or 0 for skewness and kurtosis both positive, negative and positive, or positive and negative, and of -1 otherwise.',
 ['inputs'],'every collection of cluster distance extremes, from two clusters on',
 NOT+'Formulas must hold for every collection, in particular of non-trivial size.',
 [H],[('hdbscan_calculate_stats_helper',H),('hdbscan_analyse_stats',H)],['the statistics record'])
p('C22','Cluster sorting permutes and orders by the chosen measure',
 'Sorting clusters by length or by confidence returns a permutation of the given clusters, or of all clusters when none are given, in ascending order of the number of points or of the chosen confidence of each cluster. Sorting always terminates.',
 ['inputs'],'every map and every initial order, including no list and an empty list',
 NOT+'Order must hold for every arrangement and with ties.',
 [H],[('hdbscan_sort_by_similarity / hdbscan_sort_by_length / hdbscan_quicksort',H)],['the sorted list'])
p('C23','The C++ interface gives the same results as the C interface',
 'For every data set and every sequence of operations the C++ objects and functions give the same clustering, groups, extremes, statistics, validity and orders as the C functions.',
 ['inputs','histories'],'every data set and sequence of operations available in both',
 'No test builds a C++ client.',
 ['src/hdbscan.cpp','src/distance.cpp','src/undirected_graph.cpp'],[('class hdbscan and free functions','src/hdbscan.cpp')],['results of the C++ calls'])
p('C24','The Python module gives the same results and keeps objects apart',
 'For every numeric array the Python objects give the same labels, groups and hierarchies as the C functions, each object keeps its own state, and misuse raises a Python exception without ending the interpreter. Calls release what they allocate and keep the reference counts of their arguments.',
 ['inputs','histories'],'every array, minimum number of points and sequence of calls on several objects',
 'No test loads the module.',
 ['modules/python/src/PyHdbscan.c'],[('PyHdbscan type','modules/python/src/PyHdbscan.c')],['values returned to Python'])
p('C25','The Java class gives the same results and keeps objects apart',
 'For every data array the Java objects give the same labels and groups as the C functions, each object keeps its own state, and misuse raises a Java exception without ending the virtual machine.',
 ['inputs','histories'],'every array, minimum number of points and sequence of calls on several objects',
 'No test loads the class.',
 ['modules/java/src/Hdbscan.cpp','modules/java/src/bw/co/roguesystems/Hdbscan.java'],[('native methods','modules/java/src/Hdbscan.cpp')],['values returned to Java'])
p('C26','Printed and exported results state the computed results',
 'The exported hierarchy file, the visualisation file and every printed table (hierarchy, scores, groups, sizes, extremes, statistics, graph, distances) contain exactly the computed values in the documented order, are written under the given name, and writing them is safe for every value. An export whose files can not be opened returns and leaves files and results as they were.',
 ['inputs'],'every clustering result, including the largest representable distances',
 NOT+'Output routines are never executed by a test.',
 [H,G,D],[('hdbscan_print_*',H),('graph_print',G),('distances_print',D)],['text written'])
p('C27','Graph operations keep every edge with its weight and adjacency',
 'Sorting the edges of a graph orders them by ascending weight and keeps the set of edges with their weights; exchanging two edges exchanges exactly those; removing an edge removes the adjacency between its ends, in both directions, and nothing else. A self edge is listed once in the adjacency of its vertex.',
 ['inputs','histories'],'every multigraph of edges with at most one self edge per vertex and every sequence of operations',
 NOT+'Sorting must keep three arrays together for every arrangement and tie.',
 [G],[('graph_quicksort / graph_swap_edges / graph_remove_edge',G)],['edges and adjacency after every call'])
p('C28','Every well-formed data set is clustered successfully',
 'For every data set of at least one point, every element type, both layouts and every minimum number of points from two up, run and rerun terminate, report success and leave the caller\'s data unchanged. This includes data sets smaller than the minimum, coincident points and values at the ends of the types.',
 ['inputs'],'every well-formed data set and minimum, also degenerate ones',
 NOT+'Degenerate inputs are where assertions and overruns hide.',
 [H,D],[('hdbscan_run / hdbscan_rerun',H)],['return value and termination'])
p('C29','Clearing a hashtable hands over every key and value once',
 'Clearing or destroying a hashtable calls the given release functions exactly once for every key and every value present and for no other, and leaves the table empty and usable after clearing.',
 ['histories'],'every history of operations followed by clear or destroy, with and without release functions, colliding keys included',
 'The tests never pass release functions on tables with collisions.',
 [COL+'hashtable.c'],[('hashtable_clear / hashtable_destroy',COL+'hashtable.c')],['calls of the release functions'])
p('C30','Clusters propagate by constraints first, then stability',
 'A cluster propagates itself to its parent if it has no children or satisfies more constraints than its propagated descendants, or equally many with at least their stability; otherwise it propagates those descendants, their stability and their constraints. Detaching points (refused when the cluster has fewer), adding points to the virtual child and adding satisfied constraints change exactly the quantities concerned.',
 ['histories','inputs'],'every tree of clusters and every sequence of these operations',
 NOT+'The constraint cases are not reached through the clustering call at all.',
 [CL,'src/constraint.c'],[('cluster_propagate / cluster_detach_points',CL)],['fields of the clusters'])
p('C31','A compact hierarchy loses nothing but insignificant levels',
 'When the hierarchy is computed in its compact form, a level is recorded exactly if it is the first, if it makes new clusters, or if the level before it did; recorded levels show their weight and the labels before their cut as the full hierarchy would, keys stay contiguous, and the last level is all noise. Cluster tree, selection, flat labels and outlier scores are those of the full hierarchy, and the offset of each cluster names the recorded level of its birth.',
 ['inputs'],'every data set with at least as many points as the minimum, both forms alternating on one object',
 NOT+'Which levels are left out depends on the whole history of cuts; a result read from a level that was left out is wrong only for particular trees.',
 [H],[('hdbscan_compute_hierarchy_and_cluster_tree',H),('hdbscan_find_prominent_clusters',H)],['compactHierarchy'])
p('C32','Distance objects can be used and reused on their own',
 'A distance object that is made, computed from a data set of its element type for any number of neighbours, asked for the core distances of another number, computed again from other data, cleaned and computed once more shows after every call exactly the distances of the data it was last given and the distance of every point to its neighbour of the number last asked for, or the largest value if there are too few points. Objects do not affect each other or the caller\'s data, cleaning takes the results away, and when all objects are gone no memory is left, through the C functions and the C++ class alike.',
 ['inputs','histories'],'every history of calls on any number of objects, every element type, any number of points and neighbours, none included',
 NOT+'What is left of an earlier result, or of another object, matters only in particular histories.',
 [D,'src/distance.cpp'],[('distance_compute',D),('distance_get_core_distances',D),('distance_clean',D),('Distance',"src/distance.cpp")],['distance_get','core distances'])
p('C33','Orders, hashes, primes and value objects obey their laws',
 'For all values of a type the comparison functions, by value and through pointers, say below, equal or above exactly as the values are, and exchange the answer with the arguments; a hash lies below the number of places and depends on nothing but the value (of a string: its characters), so that equal keys hash alike. Type sizes are those of C, find_prime_less_than gives the greatest prime below its argument (3 where there is no odd one), which is the number of places of a table made for that argument, get_prime a prime above it, and highestPowerof2 the least power of two above it. Outlier scores and constraints keep what they are made of, in the storage given or in their own, which goes away with them.',
 ['inputs'],'every pair of values of every supported type (NaN aside), every number of places, every 32-bit argument of the primes',
 'The tests try three arguments of one function and no comparison at all; containers are only correct if the laws hold for every value.',
 ['modules/utils/src/utils.c',COL+'primes.c','src/outlier_score.c','src/constraint.c'],[('*_compare / *_hash','modules/utils/src/utils.c'),('find_prime_less_than / get_prime',COL+'primes.c'),('outlier_score_init',"src/outlier_score.c"),('constraint_init','src/constraint.c')],['results of the calls'])
p('C34','Log messages arrive once, whole and in order',
 'For every sequence of messages, of any type, length and characters (signs of formats included), written by one thread or by several at once, the log holds every message exactly once, whole and not mixed with another, and those of a thread in its order. In front of a message stands the time of writing in square brackets, the name of the type and a colon; a message of type NONE stands as it is. In a build with DEBUG the log is a file, to which every opening appends, otherwise the standard output; logging leaves no memory behind.',
 ['inputs','schedules','histories'],'every sequence of openings, messages and closings and every interleaving of threads',
 'No test writes a message; fixed buffers, formats and shared storage fail only for particular lengths, characters and interleavings.',
 ['modules/utils/src/logger.c'],[('logger_write / logger_init / logger_close','modules/utils/src/logger.c')],['what is written'])
p('C35','A collection denied memory reports it and stays as it was',
 'Whenever the system denies memory to an operation on an array list, set, hashtable or linked list, at whichever of its requests and for however many, the operation does not crash but reports failure: constructors return NULL, adding elements and clearing or destroying a hashtable returns 0, array_list_grow returns -1. The collection then still holds what it held before the operation and can be used and released as ever. Nothing is leaked, released twice or written out of bounds, and an operation that gets the memory it asks for, or can do without, works as always.',
 ['inputs','fault_sequences','histories'],'every history of operations and every choice of requests for memory which are denied',
 'Tests never run out of memory; the paths taken then, one for each request, are executed by no test.',
 ['modules/collections/src/list.c','modules/collections/src/set.c','modules/collections/src/hashtable.c','modules/collections/src/linkedlist.c','modules/utils/src/logger.c'],[('array_list_init / array_list_grow / array_list_append / array_list_insert_at / array_list_clear','modules/collections/src/list.c'),('set_init / set_insert','modules/collections/src/set.c'),('hashtable_init_size / hashtable_insert / hashtable_clear','modules/collections/src/hashtable.c'),('linkedlist_init / node_creator','modules/collections/src/linkedlist.c')],['results and contents after a denial'])
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(f,'w') as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+'\n')
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(P))
