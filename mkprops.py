#!/usr/bin/env python3
# Generates /verif/properties.jsonl (committed). Run by hand when the property list changes.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

p('C01','Every inference routine computes the value of the network polynomial',
  'For every sum-product network (tree or DAG with shared and skip-level children, single leaf, zero or tiny weights, any leaf kind) and every evidence, complete, partial or empty, the recursive value, the one-shot inference, inference with one extra fixed variable, and each per-node entry of the stored-inference table all equal the log of the value obtained by evaluating that node bottom-up (weighted sum, product, leaf density; an unobserved leaf contributes probability one). Inference modifies neither the network nor the evidence, and a stored table obtained under one ticket leaves other tickets alone.',
  ['inputs','programs'],'all network graphs, weights, leaf parameters, evidence assignments',
  'TestStoreInference samples one fixed two-level network with one evidence; nothing covers skip-level sharing, Gaussians, indicators, zero weights, wide or deep networks, or single-node networks.',
  ['spn/utils.go','spn/sum.go','spn/product.go','spn/topo.go','spn/indicator.go','spn/multinom.go','spn/gaussian.go','utils/log.go'],
  [('bottom-up evaluation in dependency order','spn/utils.go Inference/InferenceY/StoreInference'),('recursive Value methods','spn/sum.go, spn/product.go, leaves')],
  observe=['return values of Value, Inference, InferenceY','StoreInference DP table'])
p('C02','A valid normalised network is a probability distribution',
  'For every complete and decomposable network with normalised sum weights and discrete leaves, the value of the empty evidence is one (log zero), and the value of any partial evidence equals the sum of the values of all complete assignments that extend it. Hence values lie in [0,1], adding evidence never increases them, and conditional class posteriors sum to one.',
  ['inputs','programs'],'all valid normalised discrete networks and all partial evidences',
  'No existing test sums a network over completions; correctness of marginals for every subset of observed variables is a universally quantified statement.',
  ['spn/sum.go','spn/product.go','spn/multinom.go','spn/indicator.go','spn/utils.go','utils/log.go'],
  [('marginalisation by unit-valued leaves','spn/multinom.go Value, spn/indicator.go Value'),('log-sum-exp','utils/log.go')],
  observe=['Value / Inference results'])
p('C03','MAP inference returns a maximising, evidence-consistent, complete assignment',
  'For every complete and decomposable network and every evidence of non-zero probability, the max value, the stored-MAP root value and the value reported with the MAP state all equal the max-product value of the network, and every node entry of the stored-MAP table equals that node\'s max-product value. The returned state assigns every variable of the scope, agrees with the evidence on every observed variable, and attains the reported max-product value; the traced max child of each sum on the induced tree is a child of maximal weighted value. States are integers, so an unobserved Gaussian variable whose mean is not an integer is assigned the nearest integer to that mean. For evidence of zero probability the reported value is log zero, without failing.',
  ['inputs','programs'],'all valid networks, all evidences, all random tie-breaks',
  'TestStoreMAP checks one network and one evidence and compares two implementations with each other, not with an independent maximum.',
  ['spn/utils.go','spn/sum.go','spn/product.go','spn/gaussian.go','spn/multinom.go','spn/indicator.go'],
  [('upward max pass and downward argmax trace','spn/utils.go StoreMAP, TraceMAP'),('recursive Max/ArgMax','spn/*.go')],
  observe=['StoreMAP result and table','Max, ArgMax','TraceMAP'])
p('C04','Topological orders and searches visit each reachable node once, in order',
  'For every DAG, each topological-sort routine emits every node reachable from the root exactly once with all children before their parents when collected in a queue (and the reverse when collected in a stack), and the callback variant calls back in that same order and halts exactly when the callback returns false. Breadth-first and depth-first search visit each reachable node exactly once, stop on request, and do not descend below a node whose branch is skipped; node counts equal the number of distinct sums, products and leaves.',
  ['programs','inputs'],'all DAGs, including multi-edges, skip-level edges, chains deeper than any test, and all callback decisions',
  'The tests use one ten-node graph with a hard-coded order and layered DAGs only; a layered DAG cannot exhibit a wrong order caused by an edge that skips levels.',
  ['spn/topo.go','spn/search.go','common/stack.go','common/queue.go'],
  [('Tarjan/DFS post-order','spn/topo.go'),('visited set in search','spn/search.go')],
  observe=['emitted order','callback order'])
p('C05','Saving and loading a network preserves it exactly',
  'For every network, serialising and deserialising it (in memory or through a file) yields a network with the same graph (node kinds, child order, sharing), exactly the same weights, leaf parameters and scopes, and therefore the same value and MAP value for every evidence; saving does not modify the network, and saving what was loaded gives the same network again.',
  ['inputs','programs'],'all network graphs, all weights and parameters (including tiny, huge and non-decimal values), all evidences',
  'There is no serialisation test at all; exact round-trip for every weight cannot be settled by sampling a few round numbers.',
  ['spn/serial.go','io/spn.go','spn/sum.go','spn/product.go','spn/gaussian.go','spn/multinom.go','spn/indicator.go'],
  [('topological node list plus child index lists','spn/serial.go'),('per-node gob encoders','spn/sum.go, spn/multinom.go, spn/gaussian.go, spn/indicator.go')],
  observe=['Marshal/Unmarshal, SaveSPN/LoadSPN results'])
p('C06','Scope, validity, height and weight-normalisation queries are exact',
  'For every network the reported scope is the set of variables of the leaves below the node (without duplicates), completeness holds exactly when every sum node anywhere in the graph has children of identical scope, decomposability exactly when every product node anywhere has children of pairwise disjoint scope, and the height is the longest root-to-leaf path. Normalising a network with non-negative, not-all-zero weights makes every sum node\'s weights sum to one while preserving their proportions, keeps them non-negative, and changes nothing else (weights of a sum with negative ones are first raised until the least is zero); these queries never change the network\'s values.',
  ['programs','inputs'],'all DAGs, valid or broken at any single node at any depth',
  'No test calls these predicates; a violation may sit at any node at any depth of an arbitrary DAG.',
  ['spn/utils.go','spn/sum.go','spn/product.go','spn/node.go'],
  [('bottom-up scope computation','spn/utils.go ComputeScope'),('BFS over all nodes','spn/utils.go Complete, Decomposable, NormalizeSPN, ComputeHeight')],
  observe=['ComputeScope/Sc','Complete','Decomposable','ComputeHeight/Height','NormalizeSPN'])
p('C07','Stored derivatives equal the true partial derivatives of the network',
  'For every network and evidence, whichever traversal collection is used, the stored derivative of the root with respect to each node, and with respect to each sum weight, equals (in log space) the partial derivative of the network polynomial; the batch variant accumulates the sum of the derivatives of the instances presented since its table was last reset. Deriving changes neither the network nor the stored inference values.',
  ['inputs','programs'],'all DAGs (including nodes reachable at several depths), all evidences, queue or stack traversal',
  'TestSimpleSPN checks one layered network with a queue; networks in which a node has parents at different depths, or stack traversal, are never exercised.',
  ['learn/derive.go','spn/storer.go','utils/log.go'],
  [('top-down accumulation in parent-before-child order','learn/derive.go DeriveSPN'),('weight derivatives','learn/derive.go DeriveWeights, DeriveWeightsBatch')],
  observe=['derivative tables'])
p('C08','Generative weight learning applies exactly the documented update',
  'For every network, dataset, learning rate, regularisation, batch size, iteration count and normalisation flag, each generative learner (soft or hard, online or mini-batch) leaves the sum weights equal to those obtained by the documented update rule, using every instance exactly once per iteration and flushing the final partial batch; the entry point dispatches to the learner selected by the bound parameters. With normalisation on, weights stay non-negative and sum to one at every updated sum node; structure, leaves and dataset are never modified.',
  ['inputs','configurations','histories'],'all networks, datasets, parameter combinations and update sequences',
  'One test applies a single update to one network; batching boundaries, hard updates, regularisation, dispatch and multi-epoch histories are never checked.',
  ['learn/generative.go','learn/derive.go','learn/parameters/parameters.go'],
  [('gradient application and normalisation','learn/derive.go DeriveApplyWeights, learn/generative.go apply*'),('batch flush','learn/generative.go GenerativeBGD, GenerativeHardBGD')],
  observe=['weights after learning','dataset after learning'])
p('C09','Discriminative weight learning follows the conditional gradient',
  'For every network, labelled dataset and parameter setting, each discriminative learner (soft or hard, online or mini-batch) leaves the sum weights equal to those obtained by the documented update (difference between the label-clamped and label-marginalised gradients, at every sum node), and the entry point dispatches to the learner selected by the bound parameters. After learning every dataset instance, including its labels, is exactly as it was, and with normalisation on the weights of every updated sum stay non-negative and sum to one.',
  ['inputs','configurations','histories'],'all networks, labelled datasets, parameter combinations',
  'There is no test of discriminative learning.',
  ['learn/discriminative.go','learn/derive.go'],
  [('label removal and restoration','learn/discriminative.go pullValues, pushValues'),('conditional gradient application','learn/discriminative.go applyDGD, storeDGD, applyHDGD')],
  observe=['weights after learning','dataset after learning'])
p('C10','The Gens structure learner always yields a valid normalised network of the data',
  'For every dataset and setting (number of clusters or density clustering, significance level, multinomial or Gaussian-mixture leaves, any number of processes) the Gens learner terminates with a complete, decomposable, normalised network whose scope is exactly the given variables, and every training instance has positive probability. Weights of a sum produced by clustering are the relative cluster sizes, independent variable groups become factors of a product, and where the clustering is not random the learned distribution is exactly the one these groups and clusters determine, the input dataset and scope are not modified, and the concurrent learner gives a network of the same quality guarantees for every schedule.',
  ['inputs','configurations','schedules'],'all consistent datasets, settings and goroutine schedules',
  'There is no test of the structure learner.',
  ['learn/gens/gens.go','utils/indep/indgraph.go','utils/cluster/kmeans.go','utils/cluster/dbscan.go','learn/variable.go'],
  [('independence step and clustering step','learn/gens/gens.go'),('mutex-protected child insertion','learn/gens/gens.go')],
  observe=['returned network','dataset and scope after the call'])
p('C11','The Dennis-Ventura learner yields a valid normalised network over the full scope',
  'For every complete dataset of at least two variables and every setting, the Dennis-Ventura structure learner returns a complete, decomposable network with normalised positive weights whose scope is exactly the given variables under which every training instance has positive finite density, and whose leaves for a variable are the Gaussians of the quantiles of its values in the dataset; gradient training on top of it uses the given parameters (so that without normalisation and decay the weights grow) and, with normalisation, keeps the network valid and normalised with non-negative weights and the training instances at positive finite density; the dataset is left unmodified.',
  ['inputs','configurations'],'all complete datasets and settings',
  'There is no test of this learner.',
  ['learn/dennis/dennis.go','learn/dennis/graph.go','learn/dennis/region.go','learn/dennis/scope.go','learn/dennis/partition.go'],
  [('region graph by scope bipartition','learn/dennis/dennis.go'),('scope algebra','learn/dennis/scope.go')],
  observe=['returned network'])
p('C12','The Poon-Domingos learner yields a valid network over all pixels',
  'For every image dataset whose dimensions are a multiple of the resolution, the Poon-Domingos structure learner returns a complete and decomposable network over exactly all pixels, in which every node covers a rectangle of the image and every leaf is the Gaussian of a quantile of the values of its pixel, gradient training on top of it learns at the given rate and leaves normalised weights, and training images keep positive density. Region encoding is a bijection: decoding an encoded rectangle returns it and distinct rectangles have distinct codes.',
  ['inputs','configurations'],'all image sizes, resolutions, datasets and rectangles',
  'TestEncoding samples encodings at one fixed image size; structure learning is never tested.',
  ['learn/poon/poon.go'],
  [('rectangle decompositions','learn/poon/poon.go compMap, mapInference'),('mixed-radix encoding','learn/poon/poon.go Encode, Decode')],
  observe=['returned network','Encode/Decode'])
p('C13','Every clustering is a partition of the instances that preserves them',
  'For every dataset and parameter, each clustering routine (k-means variants, DBSCAN variants, and the k-mode, k-medoid and OPTICS routines) terminates and assigns every instance to exactly one cluster, with its values and (where keyed) its index or variable ids preserved; k-means returns exactly the requested number of clusters, and all but OPTICS return copies. The converging k-modes and k-means routines leave no instance closer to the centre of another cluster than to that of its own. Density clusters never join instances that are not connected by a chain of neighbours at distance at most eps, whoever shares one is dense (has the minimum number of neighbours) or next to a dense member, DBSCAN leaves no instance separated from the minimum number of neighbours or more, OPTICS keeps neighbouring dense instances together, and distance metrics satisfy their definition.',
  ['inputs','configurations'],'all datasets (duplicates, single column, sparse variable ids), all k, eps and minimum-points values',
  'There is no clustering test.',
  ['utils/cluster/kmeans.go','utils/cluster/dbscan.go','utils/cluster/cluster.go','utils/cluster/kmode.go','utils/cluster/kmedoid.go','utils/cluster/optics.go','utils/cluster/metrics/euclid.go','utils/cluster/metrics/hamming.go','utils/unionfind.go'],
  [('assignment vector to clusters','utils/cluster/cluster.go guessToData'),('union-find regions','utils/cluster/dbscan.go')],
  observe=['returned clusters'])
p('C14','Independence tests and independence graphs match their statistical definition',
  'For every contingency table and significance level, the chi-square and G tests declare independence exactly when the p-value of their statistic with (p-1)(q-1) degrees of freedom is at least the significance level; the chi-square distribution function and p-value equal their definition. For every dataset both independence-graph constructions return the connected components of the pairwise-dependence graph: a partition of the variables in which dependent variables are never separated.',
  ['inputs','configurations'],'all contingency tables, datasets, variable ids, significance levels',
  'There is no test of the statistics or of the graphs.',
  ['utils/indep/chisq.go','utils/indep/gtest.go','utils/indep/indgraph.go','utils/unionfind.go'],
  [('test statistics','utils/indep/gtest.go, utils/indep/chisq.go'),('union-find components','utils/indep/indgraph.go, utils/unionfind.go')],
  observe=['GTest, ChiSquareTest, ChiSquare','Graph.Kset'])
p('C15','The bounded concurrency queue runs each job once, within its limit, and waits',
  'For every number of jobs, limit and schedule, the queue runs every submitted job exactly once with its own id, never has more jobs running at the same time than its limit (the number of CPUs when the limit is not positive), lets the full limit run concurrently, and never blocks forever when jobs finish. Waiting returns only after every submitted job has finished, makes the jobs\' effects visible to the waiter, and the queue can be reused afterwards.',
  ['schedules','histories','configurations'],'all interleavings of submissions, job completions and waits',
  'There is no test of the queue; a limit or wake-up violation depends on the schedule.',
  ['conc/queue.go'],
  [('condition variable and counter','conc/queue.go Run'),('wait group','conc/queue.go Wait')],
  state=[('running jobs','number of jobs between start and end','conc/queue.go')],
  observe=['job start/end events recorded by the submitted functions','Wait return'])
p('C16','Concurrent use of the library is race-free and gives the sequential results',
  'For every schedule, concurrent inference, MAP inference, tracing and derivation on a shared network with per-goroutine storage, concurrent structure learning (the Gens and Dennis learners) and weight learning on distinct networks, concurrent scoring, buffered dataset conversion, shared pseudo-random generation and parameter binding perform no data race, and the deterministic ones give exactly the results of the same calls made sequentially.',
  ['schedules'],'all goroutine interleavings of the concurrent entry points',
  'No test runs anything concurrently and the suite is not run under the race detector.',
  ['conc/queue.go','sys/rand.go','learn/parameters/parameters.go','score/score.go','learn/gens/gens.go','spn/utils.go','io/pgm.go'],
  [('global mutexes','sys/rand.go, learn/parameters/parameters.go'),('per-goroutine storage','score/score.go'),('mutex-protected insertion','learn/gens/gens.go')],
  observe=['race detector reports','results per goroutine'])
p('C17','Storage tickets are isolated tables with last-write-wins entries',
  'For every history of storage operations, a new ticket denotes a table distinct from every live one and initially empty, an entry read under (ticket, node, position) is the last value stored there since that ticket was last reset or deleted, existence queries agree with reads, and operations on one ticket never affect another. Resetting keeps the ticket usable and empties only that table; purging removes all tables.',
  ['histories'],'all interleaved sequences of ticket creation, store, read, reset, delete and purge over any nodes and positions',
  'Storage is exercised only incidentally with one ticket and position zero.',
  ['spn/storer.go'],
  [('map of tables per ticket','spn/storer.go')],
  observe=['results of all storage operations'])
p('C18','Queue and stack behave as a FIFO and a LIFO for every operation history',
  'For every sequence of operations the queue is a FIFO sequence with removal from the back, the stack a LIFO sequence, and peek, indexed access, size, emptiness, inversion, shrinking and reset agree with that sequence; no element is lost, duplicated or reordered, also across the internal shrinking threshold.',
  ['histories'],'all operation sequences, with sizes crossing the shrink threshold',
  'Queue and stack have no test of their own.',
  ['common/queue.go','common/stack.go'],
  [('slice windows','common/queue.go, common/stack.go')],
  observe=['results of all collection operations'])
p('C19','Dataset manipulation conserves instances and labels and does not alias its input',
  'For every dataset, label vector and proportions, partitioning, label-balanced partitioning, splitting, dividing, joining, copying, shuffling and subtracting conserve the multiset of (instance, label) pairs: each input instance appears exactly once in the output, with its own label, in the part the operation documents and with the documented part sizes. Extracted or removed labels and variables are exactly the designated ones, merging them back restores the dataset, identity comparison is exact, and except for the in-place shuffle neither inputs are modified nor outputs alias them.',
  ['inputs','configurations'],'all datasets, label vectors, class counts and proportions, including empty classes and fewer instances than parts',
  'There is no test of dataset manipulation.',
  ['data/manipulate.go'],
  [('cascade rounding','data/manipulate.go'),('copying','data/manipulate.go')],
  observe=['returned datasets and labels','inputs after the call'])
p('C20','Text dataset files are parsed faithfully',
  'For every well-formed .data, evidence or ARFF file, parsing returns exactly the declared variables with their category counts (names for ARFF), one instance per data row in file order with the value of every column under its variable id, and the label column where labels are separated; ARFF string and class values map one-to-one to categories. Converting a nominal ARFF file to a .data file keeps its variables and rows. Partitioned parsing splits the file into disjoint training and test parts of the requested proportion that together are the file, with test labels removed and returned in order; in a fresh process the same seed gives the same split.',
  ['inputs'],'all well-formed files: any number of variables and rows, comma or blank separators, single row, missing final newline, comments and letter case in ARFF',
  'The only ARFF test prints the result of one file; nothing checks the others.',
  ['io/input.go','io/arff.go'],
  [('line scanners','io/input.go, io/arff.go'),('random split','io/input.go ParsePartitionedData')],
  observe=['returned scope, data, labels'])
p('C21','Integer npy matrices are read faithfully',
  'For every two-dimensional integer .npy file of any supported width, signedness and byte order, reading returns each row\'s leading columns as the instance and its last column as the label, in file order, successive reads continue where the last stopped, asking for more rows than are left is an error and consumes nothing, reading all after a reset returns the whole file, and a balanced read returns distinct rows of the file in order with the per-class quota (or an error if the file has too few). Files that are not two-dimensional integer matrices stored by rows are rejected with an error.',
  ['inputs','histories'],'all shapes, integer types, byte orders, values and read sequences',
  'There is no npy test.',
  ['io/npy.go'],
  [('type dispatch','io/npy.go isValid, read, readBalanced')],
  observe=['returned datasets, labels and errors'])
p('C22','Image conversion and image output preserve every pixel',
  'For every folder of equally sized plain PGM/PBM images grouped in class subfolders, conversion to a data or evidence file emits, for each image exactly once, all its pixels in order (and its class label where the format has one) after one variable declaration per pixel with the right number of categories. Writing a state as an image emits each variable\'s value at its pixel in row-major order with a correct header, splitting an image into halves partitions its pixels, and completion images show the given half and the completed half at the right pixels. Colours given by hue follow the HSV colour model.',
  ['inputs','schedules'],'all image sizes, values, class structures, line layouts, and (buffered conversion) schedules',
  'There is no test of image conversion or output.',
  ['io/pgm.go','io/pbm.go','io/ppm.go','io/images.go','common/color.go'],
  [('folder traversal and pixel streaming','io/pgm.go, io/pbm.go'),('pixel writers','io/pgm.go, io/ppm.go')],
  observe=['output files'])
p('C23','Log-space arithmetic is accurate over the whole range',
  'For all inputs, including minus infinity and magnitudes far outside the range of the exponential, the log-sum, log-product, log-sum-exp, pairwise and signed variants equal the exact mathematical result up to floating-point rounding, never turning a representable result into NaN or infinity, and are independent of argument order; they do not modify their arguments, and trimming removes exactly the elements equal to the given value.',
  ['inputs'],'all slices of log values, including infinities, denormals, huge magnitudes and cancelling signs',
  'There is no test of log arithmetic.',
  ['utils/log.go'],
  [('max-shifted summation','utils/log.go')],
  observe=['return values'])
p('C24','Classification scores account for every prediction exactly once',
  'For every history of registered predictions, hits plus misses equals the total, hits counts exactly the correct ones, and the confusion matrix counts each (expected, predicted) pair exactly once; merging or adding scores sums them, adding leaves its operands unaffected, clearing empties, and the textual form (also when saved) gives these counts and lists the wrong predictions in order. Evaluating a network registers exactly one prediction per instance against that instance\'s label, the prediction being a label of maximal posterior (or, for MAP evaluation, the label in a MAP state), identically for the concurrent evaluation under any number of jobs, and leaves the dataset as it was.',
  ['inputs','histories','schedules'],'all prediction histories, networks, labelled datasets of any size (including fewer than ten instances) and job counts',
  'There is no test of scoring.',
  ['score/score.go','data/manipulate.go','conc/queue.go'],
  [('registration counters','score/score.go Register'),('posterior evaluation','score/score.go')],
  observe=['score counters','confusion matrix','dataset after evaluation'])
p('C25','Leaf distributions estimated from data match their definition',
  'For every vector of counts or values, multinomial leaves built from counts are the Laplace-smoothed relative frequencies and sum to one, the reported mode is a most probable category, and Gaussian leaves have the mean and standard deviation of the data they were built from (or the mode where documented). Quantile partitioning covers every value exactly once, in ascending order whatever the order of the data, with the mean, deviation and size of each part; mean and deviation helpers equal their definition.',
  ['inputs'],'all count vectors, samples and part numbers',
  'There is no test of leaf estimation.',
  ['spn/multinom.go','spn/gaussian.go','utils/stats.go'],
  [('counting constructors','spn/multinom.go, spn/gaussian.go'),('quantiles','utils/stats.go PartitionQuantiles')],
  observe=['Pr, Mean, StdDev, MuSigma, Params, Value, ArgMax'])
p('C26','Seeded randomness is reproducible and parameters stay bound to their object',
  'After reseeding with the same seed the library\'s random draws repeat exactly, stay within their documented ranges, and a random combination draws distinct pairs within its grid. A parameter set bound to an object is returned for that object, and only for it, until it is rebound or unbound; an object without bound parameters gets (and keeps) its own default set, and parameter construction and classification agree with their documentation.',
  ['histories','schedules'],'all seeds, draw sequences and bind/unbind histories',
  'Neither randomness nor parameter binding is tested.',
  ['sys/rand.go','learn/parameters/parameters.go','spn/node.go','spn/sum.go','spn/product.go'],
  [('global seeded generator','sys/rand.go'),('binding map','learn/parameters/parameters.go')],
  observe=['draws','Retrieve/Exists/Parameters results'])
p('C27','Dataset/matrix conversions and disjoint sets are faithful',
  'For every consistent dataset, conversion to a matrix (integer or floating point, with or without gaps in the variable ids) and to per-variable columns keeps every value at the row of its instance and the column mapped to its variable, the reported column mapping is a bijection with the variables, and converting back restores the dataset; inputs are not modified. For every sequence of unions, two elements have the same representative exactly when they were joined, and listing a representative\'s members returns exactly its set, each member once.',
  ['inputs','histories'],'all consistent datasets with arbitrary variable ids, all union sequences',
  'There is no test of the conversions or of union-find.',
  ['learn/variable.go','utils/unionfind.go','utils/vardata.go'],
  [('column mapping','learn/variable.go DataToMatrix*'),('union by rank with path compression','utils/unionfind.go')],
  observe=['returned matrices, maps, sets'])
p('C28','Drawings and printouts describe exactly the network',
  'For every network (with non-negative weights, any leaf kind, shared children, or a single leaf), the dot drawing is the network unfolded into a tree, each node with its kind or variable and each edge below a sum with its weight to three decimals; the graph-tool script runs and draws the same, with one vertex per variable for the leaves; the printout has each reachable node exactly once, with its children in order, weights to five decimals, and mean and standard deviation of each leaf. Drawing and printing do not change the network.',
  ['programs','inputs'],'all networks: trees, DAGs with shared and skip-level children, single leaves',
  'One test prints one network without looking at the result; drawings are never tested.',
  ['io/output.go','spn/print.go'],
  [('breadth-first drawing','io/output.go DrawGraph, DrawGraphTools'),('node naming and blocks','spn/print.go PrintSPN')],
  observe=['written files'])
p('C29','Dataset retrieval is faithful, cached, and fails cleanly',
  'For every remote file, destination and fault, a download that reports success leaves at the destination (the named file, or in a given folder a file of the remote name) exactly the remote content; one that cannot be completed (no connection, an error status, a connection broken at any point, no such folder) reports an error and leaves the destination absent or as it was, never an incomplete or bogus file. An existing file is neither requested nor touched unless overriding. Each dataset function requests its own files of the upstream repository, returns exactly their content, or nothing if a file cannot be had, and once retrieved answers from the cache without a request.',
  ['inputs','histories'],'all contents, destinations, histories of calls and fault points',
  'No test downloads anything; faults of the connection cannot be provoked by a unit test of the repository.',
  ['io/http.go','data/datasets.go','io/input.go'],
  [('download and caching','io/http.go DownloadFromURL'),('dataset functions','data/datasets.go')],
  observe=['requests seen by the server','files in the destination folder','returned datasets'])
p('C30','Diagnostics go to the chosen log only when asked for and change no result',
  'For every history of log redirections, verbosity changes and messages, each message appears exactly once, in order, in the log that was current when it was written, and only if verbose; redirecting to an empty name returns to the standard output, and a failed redirection reports an error and changes nothing. Being verbose changes no result: inference, MAP values, derivatives, weight learning, scoring, clustering, independence graphs and normalisation give the same as when quiet, and write no diagnostics when quiet.',
  ['histories','inputs'],'all histories of log operations; all inputs of the instrumented routines',
  'Tests run quiet and never redirect the log.',
  ['sys/print.go','sys/time.go','sys/vars.go'],
  [('log file and verbosity test','sys/print.go Printf, Println, SetLogFile')],
  observe=['content of the log files','results quiet and verbose'])
p('C31','Classification jobs count the right answers on unseen images',
  'For every labelled data file, partition ratio, seed and learning function, a classification job calls the learner once per iteration with the declared variables and complete rows of the file; the tested instances are exactly the other rows, as many as the ratio asks for. The total returned is their number, and the number of correct answers is the number of tested instances whose label attains the largest posterior under the network that was learned, given the other values of that row alone (the true label does not influence its own prediction); ties and rows of zero density may count either way. A batch reports the sums of its iterations. The data file is not changed, and jobs do not influence each other.',
  ['inputs','histories'],'all labelled files, ratios, seeds, networks (including densities below the least number) and sequences of jobs',
  'No test runs a job.',
  ['app/image.go','io/input.go','spn/storer.go'],
  [('partition, posterior and count','app/image.go ImgClassify'),('sums','app/image.go ImgBatchClassify')],
  observe=['arguments of the learning function','returned and printed counts'])
p('C32','Completion jobs draw the most probable half of every image',
  'For every labelled image file and number of concurrent jobs, a completion job calls the learner exactly once per image, with the pixel variables and exactly the images of the other classes, as private copies that the learner may overwrite, and never more than the given number at once (the number of processors if it is not positive). It terminates, without data races, leaving exactly four images per instance, named after it and the completed half; each shows the given half of that instance unchanged, and a most probable completion of the other half under the network learned for that instance. Leave-one-out jobs, sequential or concurrent, likewise leave four images per instance, each drawn in its own orientation under its own name.',
  ['inputs','schedules'],'all image sets, sizes and aspects, learners, schedules and limits',
  'No test runs a job, concurrent or not.',
  ['app/image.go','io/pgm.go'],
  [('job limit and private copies','app/image.go ImgCompletion, ImgTestParallel'),('halves and MAP','app/image.go halfImg')],
  observe=['calls of the learning function and their overlap','image files written','race reports'])
p('C33','The command-line program does what its flags say',
  'For every image folder, -mode=data leaves exactly one compiled data file that declares every pixel and the label and has one row per image with its pixels, images having the same label exactly when they lie in the same class folder; -mode=class runs the given number of iterations with the given partition ratio on that file and prints a result for each and their sum; -mode=cmpl leaves the four completions of every row, of the given width, height and maximum. None of them changes other files. A partition ratio outside (0, 1), a number of iterations below one or an unknown mode is refused with a message, and nothing is written.',
  ['inputs','programs'],'all image folders and combinations of flags',
  'The main program is never run by a test.',
  ['main.go','app/image.go','io/pgm.go','io/input.go'],
  [('flags and modes','main.go main'),('conversion','io/pgm.go BufferedPGMFToData')],
  observe=['exit status, output and files of the program'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
