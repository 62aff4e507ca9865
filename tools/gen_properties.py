import json
P=[]
S='src/lpaggreg/sources/';H='src/lpaggreg/headers/'
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p('C01','Ordered best partition is an exact optimal tiling',
 "For any non-negative data set over an ordered dimension (1-D to 4-D, raw or normalized qualities) and any p in [0,1], the best partition returned for p is a left-to-right sequence of contiguous parts covering every index exactly once, its reported gain and loss are the sums over its parts of the information gain and loss of the data they cover, and no other contiguous tiling has a higher p*gain-(1-p)*loss. If the quality table was handed in by the caller, or the caller changed entries of it, its entries at the time of the call take the place of the information gains and losses. This holds for every call that returns: alone, while other threads query the same qualities, and after earlier calls were cut short by a failed allocation.",
 ['inputs','schedules','fault_sequences'],"every data set, p, interleaving of callers sharing a quality table, and sequence of failed allocations before the call",
 "The tests run one 5-element data set, once, on one thread with memory never failing; they compare a few total qualities and never check that parts tile or that no better tiling exists.",
 [S+'opartitioner.cpp',S+'opartition.cpp',S+'oqualities.cpp',S+'tradeoff.cpp',S+'uppertriangularmatrix.cpp',S+'ovaluesn.cpp'],
 [('right-to-left dynamic program over cut positions',S+'opartitioner.cpp computeBestPartition'),('cut list expanded into parts',S+'opartition.cpp computeParts')],
 ['OPartitioner::computeBestPartition / getPartitions','OPartition::getParts / getQuality'])
p('C02','Hierarchical best partition is an exact optimal cut of the tree',
 "For any non-negative data set over the leaves of any rooted hierarchy (any depth, uneven leaf depths, any numbering of the inner nodes, root anywhere among them; raw or normalized qualities) and any p in [0,1], the best partition returned for p is a set of nodes covering every leaf exactly once, each with its true number of leaves and with reported gain and loss equal to the information gain and loss of the data below it, and no other such set has a higher p*gain-(1-p)*loss. If the quality table was handed in by the caller, or the caller changed entries of it, its entries at the time of the call take the place of the information gains and losses. This holds for every call that returns: alone, while other threads query the same qualities, and after earlier calls were cut short by a failed allocation.",
 ['inputs','schedules','fault_sequences'],"every tree shape and numbering, data set, p, interleaving of callers sharing a quality table, and sequence of failed allocations before the call",
 "One registered test runs one balanced-enough 5-leaf tree whose root is the last node and checks nothing about the result.",
 [S+'hpartitioner.cpp',S+'hpartition.cpp',S+'hqualities.cpp',S+'hvalues.cpp',S+'tradeoff.cpp'],
 [('bottom-up pass in path order',S+'hpartitioner.cpp computeBestPartition'),('path, sizes and children of the tree',S+'hvalues.cpp HValuesMetaData::setPath')],
 ['HPartitioner::computeBestPartition / getPartitions','HPartition::getParts / getQuality'])
p('C03','Ordered-hierarchical best partition is an exact optimal tiling',
 "For any non-negative data set over the leaves of a rooted hierarchy crossed with an ordered dimension (2-D to 4-D, raw or normalized qualities) and any p in [0,1], the best partition returned for p is a set of (node, interval) parts covering every (leaf, index) cell exactly once, with true sizes, gains and losses, and no tiling obtainable by recursively splitting a node's interval in two or a node into all its children has a higher p*gain-(1-p)*loss. If the quality table was handed in by the caller, or the caller changed entries of it, its entries at the time of the call take the place of the information gains and losses. This holds for every call that returns: alone, while other threads query the same qualities, and after earlier calls were cut short by a failed allocation.",
 ['inputs','schedules','fault_sequences'],"every tree, interval length, data set, p, interleaving of callers sharing a quality table, and sequence of failed allocations before the call",
 "One test runs a 2-leaf, 5-step set and checks no result at all.",
 [S+'dpartitioner.cpp',S+'dpartition.cpp',S+'dqualities.cpp',S+'hvalues.cpp',S+'tradeoff.cpp'],
 [('dynamic program over (node, interval)',S+'dpartitioner.cpp computeBestPartition'),('cut matrices expanded into parts',S+'dpartition.cpp computeSubPart')],
 ['DPartitioner::computeBestPartition / getPartitions','DPartition::getParts / getQuality'])
p('C04','Quality tables equal the information-theoretic definition',
 "Whenever a quality computation returns, the gain and loss of every candidate aggregate (interval, node, or node x interval) equal, up to rounding, the sums over attributes of [S log2 S - sum v log2 v] and [S log2 n - (S log2 S - sum v log2 v)] for the n values v it covers with total S, for 1-D to 4-D sets of each family; whenever a normalization returns, every entry has been divided by the whole's gain and loss (a zero whole leaves its column unchanged, repeating it changes nothing), including for tables supplied by the caller. This holds also when the computation follows failed attempts, element updates, or runs while other threads read the same data.",
 ['inputs','histories','schedules','fault_sequences'],"every data set and hierarchy, every history of computations, normalizations, updates and failed allocations, and every interleaving of readers",
 "Tests check total quality of five partitions of one 5-element ordered set; hierarchy tables and normalization are never compared with anything.",
 [S+'oqualities.cpp',S+'hqualities.cpp',S+'dqualities.cpp',S+'complexity.cpp',S+'ovaluesn.cpp',S+'hvaluesn.cpp',S+'dvaluesn.cpp',S+'hvalues.cpp',S+'quality.cpp'],
 [('incremental sums and entropies',S+'oqualities.cpp, hqualities.cpp, dqualities.cpp computeQualities'),('division by the root entry',S+'*qualities.cpp normalize')],
 ['OQualities/HQualities/DQualities::getQualities'])
p('C05','A sweep lists exactly the partitions that change, at the asked resolution',
 "After computeBestPartitions(threshold,min,max) returns, the parameter list is strictly increasing, starts at min and stays within [min,max]; the partition map, quality map and tuple list describe exactly the listed parameters, each listed partition is the one computeBestPartition returns for that parameter and differs from the previous one. From each listed parameter up to threshold before the next one (up to max for the last), the listed partition remains a best one.",
 ['inputs','histories','schedules','fault_sequences'],"every data set of each family, threshold, parameter range (including min=max), every earlier history of the partitioner, concurrent sweeps over the same qualities, and failed allocations in earlier sweeps",
 "Tests compare only the number of listed parameters for one data set, threshold 0.001 and range [0,1].",
 [S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp',S+'partitioner.cpp',S+'opartition.cpp',S+'hpartition.cpp',S+'dpartition.cpp'],
 [('bisection on p with equality of partitions',S+'{o,h,d}partitioner.cpp addBestQualities'),('removal of equal neighbours',S+'{o,h,d}partitioner.cpp computeBestPartitions')],
 ['getPList','getPartitions','getPartitionsTuples','getQualityList'])
p('C06','A call that runs out of memory fails cleanly and leaves results intact',
 "If memory allocation fails at any point inside a library call, the call reports std::bad_alloc to its caller and every object it was applied to keeps exactly the results it held before the call (data, quality table, parameter list, partitions, tuples, qualities). The same call issued again once memory is available succeeds and gives the result it would have given without the failure.",
 ['fault_sequences','histories'],"every allocation of every call (single failures, bursts, memory staying full, large requests only), at every point of a history of calls",
 "No test ever makes an allocation fail.",
 [S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp',S+'oqualities.cpp',S+'hqualities.cpp',S+'dqualities.cpp'],
 [('results built aside and swapped in',S+'*partitioner.cpp computeBestPartitions, *qualities.cpp computeQualities')],
 ['all getters of values, qualities and partitioners before and after the failed call'])
p('C07','Callers on different threads get the answers they would get alone',
 "Threads that build their own objects, or that concurrently compute qualities from one data set, run computeBestPartition on one partitioner, run sweeps on their own partitioners over one quality table, aggregate one partition over one data set, or read results, each obtain bit for bit the result the same calls give when run alone, whatever the interleaving and whatever allocation failures hit the other threads. Such use contains no data race.",
 ['schedules','fault_sequences'],"every interleaving of up to four caller threads at the granularity of single memory accesses, with allocation failures in some of them",
 "All tests are single-threaded.",
 [S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp',S+'partitioner.cpp',S+'uppertriangularmatrix.cpp',S+'tradeoff.cpp',S+'complexity.cpp',H+'complexity.h'],
 [('queries only read shared tables; working state is per call',S+'*partitioner.cpp computeBestPartition'),('no mutable globals',H+'complexity.h')],
 ['results of every call compared with a solo run; memory accesses of the library'])
p('C08','Results never depend on heap or stack contents; no invalid access',
 "The results of a history of calls are a function of the arguments only: they are bit for bit identical whatever bytes the allocator hands out, wherever blocks are placed, how freed blocks are reused and whatever the stack held before. The library reads and writes only inside blocks it currently owns, also on the unwinding path of a failed allocation.",
 ['histories','fault_sequences','configurations'],"every history of calls, allocator placement and reuse policy, initial heap and stack contents, and allocation failures on the way",
 "Tests run with whatever the allocator returns (usually zeroed pages) and no memory checker; a stale or uninitialised read goes unnoticed.",
 [S+'haggregationn.cpp',S+'daggregationn.cpp',S+'partitioner.cpp',S+'uppertriangularmatrix.cpp',S+'hvalues.cpp',S+'*partitioner.cpp'],
 [('explicit initialisation of tables',S+'uppertriangularmatrix.cpp'),('values returned by copy, blocks owned by shared_ptr','all classes')],
 ['all getters; memory accesses of the library'])
p('C09','Aggregates hold the sums and means of what their part covers',
 "For each part of a partition, the aggregate built from it holds, for every attribute combination, the sum of the data values the part covers and that sum divided by the number of cells it covers, in the order of the partition's parts; hence the sums over all parts add up to the whole data set. This holds for ordered, hierarchical and mixed sets of every supported dimension and any hierarchy, also when built concurrently from shared data or after a failed attempt.",
 ['inputs','schedules','fault_sequences'],"every data set, hierarchy and partition, every interleaving of builders sharing data, and failed allocations",
 "No test builds an aggregation.",
 [S+'oaggregationn.cpp',S+'haggregationn.cpp',S+'daggregationn.cpp',S+'oaggregation.cpp',S+'haggregation.cpp',S+'daggregation.cpp'],
 [('recursive sum over the leaves below the part',S+'haggregationn.cpp, daggregationn.cpp subSum')],
 ['getAggregates, getSum, getMean, getPart'])
p('C10','Reused objects answer like freshly built ones',
 "After any history of element updates, quality recomputations, normalizations, sweeps with other arguments, copies and queries, interleaved between several callers, each object answers every call bit for bit like a fresh object built from the inputs it currently stands for: the data set's current elements for a recomputation, the shared table's current contents for a partitioner (which keeps the table it was built on), the last successful sweep's arguments for its lists. Reads and queries change nothing.",
 ['histories','schedules','fault_sequences'],"every history of calls from up to three callers interleaved at call granularity on shared mutable objects, with failed calls among them",
 "Each test object is used once or twice in one fixed order.",
 [S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp',S+'oqualities.cpp',S+'hqualities.cpp',S+'dqualities.cpp',S+'partitioner.cpp'],
 [('lists cleared before a sweep',S+'*partitioner.cpp computeBestPartitions'),('table re-created by a computation',S+'*qualities.cpp computeQualities')],
 ['all getters'])
p('C11','Chosen parameters and the area score match the last completed sweep',
 "Once a sweep has completed, the minimum parameter is 0, the maximum is the last listed parameter, the optimum is the listed parameter minimising (gain-1)^2+loss^2 (the highest one on ties), and the area score is 1 minus the trapezoidal area of loss over gain along the list. At every other moment (before any sweep, after a sweep that ran out of memory) these queries return the values of the last completed sweep, or a parameter in [0,1] and an area of 1 if there is none, and never crash.",
 ['histories','fault_sequences','inputs'],"every history of sweeps and failed sweeps, every data set (raw qualities of any magnitude, degenerate sets), queries at any moment",
 "One test calls getP before any sweep and ignores the value; nothing checks the optimum or the area.",
 [S+'partitioner.cpp',S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp'],
 [('scan of the quality list',S+'partitioner.cpp computePOpt, computeAUC, getP')],
 ['getP','computeAUC'])
p('C12','Sweeps finish, with work proportional to what they list',
 "A sweep with any finite threshold (including 0 and negative ones) and any range min<=max terminates, after a number of best-partition searches bounded by the number of listed parameters times the number of halvings from the range down to the threshold or to float resolution. Once allocation failures stop, a repeated call completes within the same bound.",
 ['inputs','fault_sequences','schedules'],"every data set, threshold and range, under preemption by other callers and after failed attempts",
 "Tests use thresholds 0.001 only.",
 [S+'opartitioner.cpp',S+'hpartitioner.cpp',S+'dpartitioner.cpp'],
 [('bisection stops on equal ends or small interval',S+'*partitioner.cpp addBestQualities')],
 ['simulated steps used by the call'])
p('C13','Everything allocated is released',
 "When the objects of a history of calls have been destroyed, all memory the calls allocated has been returned, whether the calls succeeded or were cut short by a failed allocation at any point, and repeating the history holds no more memory than running it once.",
 ['histories','fault_sequences','crash_points'],"every history of calls and every point at which an allocation inside a call fails",
 "Tests run each program once and exit without accounting for memory.",
 [S+'*.cpp',S+'uppertriangularmatrix.cpp',S+'dpartitioner.cpp',S+'hpartitioner.cpp',S+'opartitioner.cpp'],
 [('shared_ptr and container ownership','all classes')],
 ['live blocks of the simulated allocator'])
p('C14','Data sets keep what was written and describe their hierarchy truly',
 "A data set built from nested vectors, or built by size and filled element by element, returns through every accessor the last value written to each element (0 for one of a set built by size that was not written yet) and the extents it was given; its hierarchy description gives the true root, the children and number of leaves of every node, and an order of all nodes in which leaves come first and every node precedes its parent. This holds through any history of writes by interleaved callers and after failed constructions.",
 ['inputs','histories','fault_sequences'],"every extent, hierarchy shape and numbering, history of writes and reads, and failed allocations during construction and reads",
 "Only ordered sets' extents are checked, for one shape each; no hierarchy description is.",
 [S+'ovaluesn.cpp',S+'hvaluesn.cpp',S+'dvaluesn.cpp',S+'hvalues.cpp',S+'dvalues.cpp',S+'ovalues.cpp'],
 [('flattened attribute index',S+'*valuesn.cpp toI/toJ/toK'),('tree traversal',S+'hvalues.cpp HValuesMetaData::setPath')],
 ['operator(), operator[], getVsize, getOsize, getI/J/K, getMetaData'])
p('C15','Single qualities and tradeoffs compute, copy and compare as values',
 "Adding, subtracting, multiplying and dividing single qualities and tradeoffs (the in-place and the two-operand operators) acts component by component (gain, loss and, for tradeoffs, value) on what the operands hold at that moment; setting a quality's gain or loss, adding to it, and evaluating a tradeoff for a parameter (value = p*gain-(1-p)*loss, the gain and loss as given) leave exactly that. A call changes only the object it is called on or assigns to: never an operand, the object it was copied or built from, nor its copies. Two qualities are equal (==) if gain and loss are the same, or non-negative and differ by no more than rounding, unequal if gain or loss differ by more than 1e-11 of the pair's magnitude, and equality is symmetric; tradeoffs are equal exactly when their values are; > orders tradeoffs by value, then larger gain, then smaller loss, <= is its opposite, < orders by value alone and >= is its opposite; != is the opposite of ==. A quality prints as (gain,loss). This holds through any history of creations, copies, assignments and updates, by callers that share operands, and a call that fails for lack of memory changes nothing.",
 ['inputs','histories','schedules','fault_sequences'],"every pair of finite qualities or tradeoffs reached by a history of these calls, every interleaving of callers reading shared operands, every failed allocation","Tests only use != on a handful of qualities; no test touches a tradeoff.",
 [S+'quality.cpp',S+'tradeoff.cpp'],[('component-wise operators',S+'quality.cpp, tradeoff.cpp'),('own quality per tradeoff',S+'tradeoff.cpp copy constructor, assignment, set')],['operators, getters and printed form of Quality and Tradeoff'])
p('C16','R front-end functions return the library\'s answer for the data given',
 "oaggregate, haggregate and daggregate, as exported by R/lpaggreg.R, hand the library the 3-D array (space, type, time in R's column order) and the 1-based hierarchy (0 for the root) they receive, and return exactly the library's answer for that data and threshold: one row per part of every listed partition with 1-based node and positions, the quality list, the optimum parameter and the area score. They leave the caller's array and hierarchy untouched, return the same result whatever was computed before in the session and whatever memory contains, and when memory runs out inside a call it fails with bad_alloc, releases everything, and the same call answers correctly once memory is available.",
 ['inputs','histories','fault_sequences'],"every array, hierarchy, threshold and session of calls, every failing allocation","No test reaches the front end; sessions and failed allocations cannot be sampled by hand.",
 ['R/lpaggreg.R'],[('array and hierarchy conversion','R/lpaggreg.R convertToMicroModel, convertToHierarchy'),('result assembly','R/lpaggreg.R oaggregate, haggregate, daggregate')],['returned lists and data frames','caller arrays','memory held after a call'])
p('C18','Partitions are what their cuts describe and are equal iff they group alike',
 "Two partitions of data with the same extents and hierarchy are equal (==) exactly when they consist of the same parts (node, interval), and != is the opposite; the answer is symmetric and does not depend on their parameters, qualities, the tables they stand on, or the way each was obtained (search, sweep, copy, assignment, or built by the caller from cut lists). Parts compare equal exactly when node and interval are the same. A partition the caller builds from the cut lists the classes accept (ordered: the end of the part starting at an index; tree: whether a node is kept; both: per node and interval where time is cut, or the children) consists of exactly the parts those describe, whatever the entries the description never reaches contain, reports the given parameter, and its gains and losses are the table's entries and their sum. This holds under callers sharing the partitions and after calls cut short by a failed allocation.",
 ['inputs','histories','schedules','fault_sequences'],"every pair of tilings of every data set and hierarchy, every way of obtaining them, every interleaving of callers and every failed allocation","No test compares two partitions or builds one.",
 [S+'opartition.cpp',S+'hpartition.cpp',S+'dpartition.cpp'],[('comparison of part lists',S+'{o,h,d}partition.cpp operator=='),('cuts expanded into parts',S+'{o,h,d}partition.cpp computeParts')],['operator==, operator!=, getParts, getQuality, getParameter'])
p('C19','Triangular tables keep a value of its own for every pair of positions',
 "A triangular table of size n reports n and n(n+1)/2 elements. Reading position (i,j), i<=j, returns what was last stored there, and before that what the table was built with: 0 for numbers; for qualities and tradeoffs a new object with gain, loss and value 0 for every cell, shared with no other cell; or, where a value was given at construction, that value (that very object) in every cell. Reading by one index enumerates every cell exactly once. Storing changes the one cell it names, in the one table it is called on; updating an object a cell holds changes what is seen through exactly the cells holding that object. A copy, or a table assigned to, then holds what the other held: numbers are its own, objects are the same objects, and storing into either does not show in the other. This holds for all five element types the library offers, through any history of such calls by callers reading shared tables, whatever memory contains, and a failed construction, copy or store changes no table.",
 ['inputs','histories','schedules','fault_sequences'],"every size, every pair of positions, every history of stores, copies and assignments, every interleaving of callers reading shared tables, every failed allocation","No test uses a table directly; the library's own uses fill every cell once in one order.",
 [S+'uppertriangularmatrix.cpp','src/lpaggreg/headers/uppertriangularmatrix.h'],[('flat index of a pair of positions',S+'uppertriangularmatrix.cpp operator()'),('one object per cell',S+'uppertriangularmatrix.cpp specialised constructors')],['operator(), operator[], getSize, getElements, copies and assignments'])
p('C17','Trace conversion accounts every state duration in the time slices it overlaps',
 "The R trace conversion puts each state duration in the time slices it overlaps, numbers resources consistently with the hierarchy it returns, and the macroscopic functions expand a listed partition back over the cells it covers.",
 ['inputs'],"every trace, slice count and hierarchy","No R test exists.",
 ['R/lpaggreg_pjdump.R'],[('slice overlap','R/lpaggreg_pjdump.R')],['R return values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
