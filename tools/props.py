"""The properties of knor, and for each one the rule that decides it."""
T = "effect-tree static analysis (custom libTooling front end)"
P = []
NA = []


def p(**k):
    P.append(k)


def na(**k):
    NA.append(k)


p(id="C01", title="A phase handed to a worker is carried out and reported exactly once",
  statement="Every phase that a clustering driver hands to its worker threads is one the worker carries out and reports as complete exactly once, on every path through that phase, and after reporting it the worker touches no shared result until it is woken again. A worker leaves its service loop only when told to exit, and sleeps while it has nothing to do.",
  over=["schedules", "inputs", "programs"],
  forall="all drivers, all phases they can dispatch, all control paths of the worker for that phase",
  tests="Tests run a handful of driver configurations; a phase without a worker case, a path that skips or repeats the completion report shows only on the option or data that reaches it.",
  files=["libman/thread.cpp", "libman/coordinator.cpp", "libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/fcm.cpp", "libman/gmm.cpp", "libman/medoid.cpp", "libman/skmeans.cpp", "libman/hclust.cpp", "libman/xmeans.cpp"],
  mech=[("worker phase switch", "*_thread::run in libman"), ("completion report", "thread::sleep in libman/thread.cpp"), ("phase dispatch", "coordinator::wake4run in libman/coordinator.cpp")],
  rule="protocol.c01", tech="typestate over effect trees of driver and worker", note="path-sensitive typestate on inlined effect trees; complete for the recovered call graph, loops abstracted",
  explain="For every concrete driver the phases it can dispatch are recovered from its effect tree; for each of them the worker's run() is specialised to that phase and a typestate counts completion reports on every path (exactly one, or another task taken), rejects writes to shared state after the report and exceptions thrown by the dispatcher, and the thread entry loop is shown to run phases only when neither waiting nor told to exit.")

p(id="C02", title="The driver reads or reuses shared state only after all workers are done",
  statement="After handing a phase to its workers, a driver waits for all of them to report completion before it reads anything they produce, writes anything they use, hands out the next phase, or returns to the caller.",
  over=["schedules", "programs"],
  forall="all drivers, all dispatched phases, all paths through the driver between dispatch and wait, all worker timings",
  tests="A missing wait is a race: the suite passes whenever the scheduler happens to finish the workers first.",
  files=["libman/coordinator.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/gmm_coordinator.cpp", "libman/medoid_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libman/hclust_coordinator.cpp", "libman/xmeans_coordinator.cpp", "libman/gmeans_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  mech=[("dispatch", "coordinator::wake4run"), ("barrier", "coordinator::wait4complete")],
  rule="protocol.c02", tech="typestate over driver effect trees with worker read/write sets", note="path-sensitive, may-alias by field; loops to fixpoint",
  explain="Worker read and write sets per driver are collected from the workers' effect trees; the driver's effect tree is run through a typestate (idle / phase P in flight) with branch correlation, and any access to those sets, any further dispatch, or a return while a phase is in flight is reported.")

p(id="C03", title="No wake-up or completion signal between driver and workers can be lost",
  statement="However driver and workers interleave, a worker that is handed a phase is always woken to run it and starts it only after its hand-over is complete, and a driver waiting for completion is always woken once the last worker finishes. No run can hang because a signal was sent before the other side started waiting or because a worker was left out.",
  over=["schedules", "programs"],
  forall="all interleavings of driver and worker threads, any number of workers, every driver/worker pair",
  tests="A lost signal needs one precise interleaving; test runs almost never hit it and show a hang at worst.",
  files=["libman/coordinator.cpp", "libman/thread.cpp", "libman/thread.hpp", "libman/task_thread.cpp"],
  mech=[("pending count set before workers are woken", "coordinator::wake4run"), ("predicate loop around the condition wait", "coordinator::wait4complete"), ("state set and signalled under the worker's lock", "thread::wake"), ("count dropped and signalled under the driver's lock", "thread::report_complete")],
  rule="protocol.c03", tech="lock/condition-variable protocol rules over effect trees", note="standard monitor discipline (predicate changed under the lock held by the waiter), checked at each site and path",
  explain="The monitor discipline that excludes lost wake-ups is checked at every site: the pending count equals the number of workers and is set before any is woken, every worker is woken, each wait re-tests its predicate in a loop with the lock held from test to wait, each predicate change happens under the waiter's lock and is followed by a signal on the waiter's condition, and the objects shared by both sides are wired up before threads start.")

p(id="C04", title="Every lock taken is released on every path and locks nest in one order",
  statement="Every mutex that a thread acquires is released exactly once on every way out of the operation that took it, is never taken again while held, and no two code paths can acquire the same pair of locks in opposite orders.",
  over=["schedules", "inputs", "programs"],
  forall="all paths through all functions of the library that take locks, all worker and driver classes",
  tests="An unreleased lock on a rare path or an inverted lock order deadlocks only under a particular input or schedule.",
  files=["libman/thread.cpp", "libman/coordinator.cpp", "libman/task_queue.hpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp"],
  mech=[("lock/unlock pairs", "pthread_mutex_lock/unlock in libman")],
  rule="protocol.c04", tech="lock-set typestate and lock-order graph", note="path-sensitive lock balance per entry point, lock identity by field path",
  explain="Every function that locks, and every worker phase and driver entry with helpers inlined, is run through a lock-set typestate: balance at every exit, no re-acquisition, no release of an unheld lock; acquired-while-held pairs from all trees form the lock-order graph, which must be acyclic.")


p(id="C08", title="Every row is assigned to its nearest centre under the configured distance",
  statement="In every clustering pass that does a full assignment, each row is assigned to the cluster whose centre is nearest to it under the configured distance, considering all centres. Every worker measures with the metric, the centres and the rows it was configured with.",
  over=["inputs", "programs"],
  forall="all rows, all numbers of clusters and columns, all distance metrics, all drivers (full k-means, spherical, medoid, the first pass of pruned k-means, mini-batch, MPI, OpenMP)",
  tests="Tests compare a final clustering on tiny samples, where a skipped last centre, a wrong row offset or a wrong metric often gives the same labels.",
  files=["libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/skmeans_thread.cpp", "libman/medoid.cpp", "libman/kmeans_coordinator.cpp", "libman/thread.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("full scan over the centres", "kmeans_thread::EM_step, medoid::EM_step"), ("first pass and mini-batch", "kmeans_task_thread::EM_step, mb_EM_step"), ("worker construction", "*_coordinator::build_thread_state")],
  rule="kmeans.c08", tech="canonical effect summaries (arg-min recognition) compared with the specification", note="effects with symbolic sizes: holds for all inputs; semantic normal form over loops, guards and arithmetic",
  explain="The effect tree of the worker phase is reduced to a normal form in which running minima become arg-min terms over a symbolic range; every store to the assignment vector must be exactly the arg-min over all centres of the configured distance between the worker's own row and the centre, and the construction of the workers must hand over the driver's metric, centres and vector.")

p(id="C09", title="A centre is the mean of exactly the rows assigned to its cluster",
  statement="After every k-means pass the centre of each non-empty cluster is the sum of all rows assigned to it, over all workers, divided by their number, and the reported cluster sizes count those rows. Incremental updates move a row that changes cluster from the old cluster's sum and count to the new one's, once.",
  over=["inputs", "programs"],
  forall="all rows, clusters and columns, all workers, every pass of full, spherical, pruned, MPI and OpenMP k-means",
  tests="Tests accept results within a tolerance after convergence; a sum that misses a worker, a stale partial sum, or a wrong divisor on rarely changed clusters passes them.",
  files=["libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libman/clusters.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("worker sums", "clusters::add_member / swap_membership"), ("merge of worker sums", "*_coordinator::update_clusters"), ("division", "clusters::finalize")],
  rule="kmeans.c09", tech="canonical effect summaries compared with the specification", note="effects with symbolic sizes; order of reset, accumulation, merge and division checked",
  explain="Stores to the worker's sums and counts, the merge over all workers, the division and the reported sizes are reduced to normal form and compared with the specification, including their order, their full ranges and the absence of any other effect on the same vectors.")

p(id="C11", title="A run stops by its stated criterion and reports the passes it made",
  statement="A clustering run makes at most the configured number of passes, none when that number is zero, and reports exactly the number it made. It stops earlier only when its convergence criterion, evaluated on the results of the pass just made, holds, and it does stop then.",
  over=["inputs", "programs"],
  forall="all iteration limits, tolerances, row counts and data; every clustering driver (threaded, MPI and OpenMP)",
  tests="Tests use a few limits and data sets that converge in between; limits at or below the first convergent pass, a limit of zero and a tolerance at the boundary are not sampled.",
  files=["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/gmm_coordinator.cpp", "libman/medoid_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("iteration loop and exits", "*_coordinator::run"), ("change counting", "kmeans_thread::EM_step, kmeans_task_thread::EM_step")],
  rule="iters.c11", tech="canonical loop-exit conditions and counter summaries compared with the specification", note="symbolic limits and data; exits and counters in semantic normal form",
  explain="For the iteration loop of each driver the exit conditions and the effects on the pass counter are reduced to normal form and evaluated over the small finite set of abstract situations (limit below, at, above the counter; converged or not); the change counters the criterion reads are traced to the workers' effects.")

p(id="C12", title="Distributed processes make the same collective calls and agree on results",
  statement="In a distributed run every process reaches the same collective operations in the same order, whatever rows it holds. After seeding and after every pass all processes hold the same centres, cluster sizes and change count, formed from every process's contribution over all clusters and columns. What a process computes for its rows (seeding distances, final assignments) lands at the positions of those rows in the full data set.",
  over=["schedules", "inputs", "programs"],
  forall="all numbers of processes, rows, clusters and columns, all seeding methods, all outcomes of the passes",
  tests="The suite starts one small distributed run whose processes each form a world of one, so no reduction, gather or broadcast ever combines anything.",
  files=["libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libdist/mpi.hpp"],
  mech=[("reductions and gathers", "libdist/mpi.hpp"), ("plain and pruned distributed passes", "dist_coordinator::run, dist_task_coordinator::run and pp_aggregate"), ("seeding", "kmeanspp_init, forgy_init, random_partition_init in libdist")],
  rule="mpi.c12", tech="divergence (uniformity) dataflow for collective calls; canonical effect summaries of merges and gathers", note="any number of processes and rows; MPI operations taken by their specification",
  explain="A dataflow analysis marks every value that can differ between processes (rank, own rows, thread data, unequal random draws); no collective call may be reached, repeated or sized under such a value. The effects of a pass, of each seeding method and of the final gather are reduced to normal forms that must send, combine and place exactly the right ranges.")

p(id="C19", title="Pruned k-means keeps the bounds that justify every skipped distance",
  statement="With Euclidean distance, pruned k-means leaves out a distance computation only when the triangle inequality on the bounds it keeps rules the centre out. Those bounds (distance to the assigned centre, distances between centres, half the distance to the nearest other centre, and how far each centre moved in the last pass) are refreshed in every pass before they are used.",
  over=["inputs", "programs"],
  forall="all rows, clusters, columns and passes of the pruned drivers (threaded, MPI and OpenMP)",
  tests="A bound that is too tight by one stale movement still gives the same clustering on the small, well separated data the suite compares against.",
  files=["libman/kmeans_task_thread.cpp", "libman/kmeans_task_coordinator.cpp", "libman/clusters.cpp", "libman/thd_safe_bool_vector.hpp", "libkcommon/dist_matrix.cpp", "libdist/dist_task_coordinator.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("skip conditions", "kmeans_task_thread::EM_step"), ("bound refresh", "kmeans_task_coordinator::run, prune_clusters, dist_matrix::compute_dist")],
  rule="prune.c19", tech="canonical effect summaries and guard analysis compared with the specification", note="effects with symbolic sizes; skip guards compared with the set of sound triangle-inequality tests",
  explain="Every guard under which a distance is not computed is extracted and must be one of the tests justified by the triangle inequality on the kept bounds, and every effect on those bounds (worker and driver) is compared, with its order relative to the passes, with the specification.")

p(id="C21", title="A flat clustering result is complete and describes the last pass",
  statement="The result of a flat (non-hierarchical) clustering run has the data's row and column counts, the number of clusters, one assignment for every row, the number of rows assigned to each cluster, and every coordinate of every centre. It describes the state after the last pass: nothing changes assignments, sizes or centres between that pass and the return.",
  over=["inputs", "programs"],
  forall="all row, column and cluster counts, every flat clustering driver (threaded, mini-batch, medoid, fuzzy, MPI, OpenMP)",
  tests="Tests look at the assignments of one tiny sample; a truncated copy, a stale size or a centre array of the wrong pass is not compared.",
  files=["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/skmeans_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/medoid_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libkcommon/types.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("result construction", "cluster_t constructors in libkcommon/types.cpp"), ("return of run()", "*_coordinator::run, mb_run"), ("sizes from assignments", "*_coordinator::run")],
  rule="result.c21", tech="canonical effect summaries compared with the specification", note="effects with symbolic sizes; everything after the iteration loop is accounted for",
  explain="The effects on the returned result object are reduced to normal form and must give every field its full content; all effects after the iteration loop on what the result is copied from are enumerated and must be the final size count (or, for fuzzy clustering and mini-batches, the final assignment) only.")

p(id="C25", title="Random seeding draws from all rows with the right probabilities",
  statement="Forgy seeding makes every centre a row drawn uniformly from all rows, and random-partition seeding puts every row into a uniformly drawn cluster and starts from the means of these. K-means++ draws its first centre uniformly and every further one with probability proportional to the row's distance to the nearest centre chosen so far, until there are as many centres as asked for.",
  over=["inputs", "programs"],
  forall="all numbers of rows, columns, clusters and threads, every k-means driver (threaded, spherical, pruned, MPI, OpenMP); Forgy seeding also for medoids and fuzzy clustering",
  tests="Any k rows of the data give a plausible clustering, so a seeding that never draws the last row, takes the wrong row or ignores the distances passes.",
  files=["libman/kmeans_coordinator.cpp", "libman/kmeans_task_coordinator.cpp", "libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/fcm_coordinator.cpp", "libman/medoid_coordinator.cpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp", "libkcommon/util.hpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("k-means++", "*_coordinator::kmeanspp_init, *_thread::kmspp_dist"), ("Forgy", "*_coordinator::forgy_init"), ("random partition", "*_coordinator::random_partition_init")],
  rule="seed.c25", tech="canonical effect summaries and ranges of the random draws compared with the specification", note="effects with symbolic sizes; ranges of all draws; conditions of the selection loops",
  explain="The range of every random draw and the effects of each seeding method (worker distances, running total, selection, copied rows, membership) are reduced to normal form and compared with the specification, and the selection loops must stop exactly when a row is chosen and all centres are there.")

p(id="C10", title="Each distance metric is computed as defined, and the one asked for is used",
  statement="Every distance is computed by its definition over all coordinates: Euclidean, squared Euclidean, taxicab (sum of absolute differences) and cosine (one minus the cosine of the angle between the vectors). The metric name given to a driver selects exactly that distance, and every comparison between rows and centres of the run uses it.",
  over=["inputs", "programs"],
  forall="all vectors and lengths, all metric names, all drivers and worker phases",
  tests="Tests run Euclidean and a little cosine on one small sample; a coordinate left out, a swapped name or a worker that ignores the configured metric keeps them green.",
  files=["libkcommon/util.hpp", "libkcommon/util.cpp", "libman/kmeans_coordinator.hpp", "libman/kmeans_task_coordinator.hpp", "libman/skmeans_coordinator.hpp", "libman/fcm_coordinator.hpp", "libman/gmm_coordinator.hpp", "libman/medoid_coordinator.hpp", "libman/hclust_coordinator.hpp", "libman/xmeans_coordinator.hpp", "libman/gmeans_coordinator.hpp", "libman/kmeans_thread.cpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp"],
  mech=[("distance kernels", "eucl_dist, sqeucl_dist, taxi_dist, cos_dist in libkcommon/util.hpp"), ("dispatch", "dist_comp_raw in libkcommon/util.hpp"), ("names", "get_dist_type in libkcommon/util.cpp, *_coordinator::create, libauto")],
  rule="metric.c10", tech="canonical summaries of the kernels compared with their definitions; name-to-metric-to-use dataflow", note="symbolic vectors and lengths; enumeration of the finite set of names",
  explain="The value each kernel returns is reduced to a normal form over a symbolic range of coordinates and compared with its definition; dispatch and name mapping are evaluated for each metric; every distance a worker phase computes must be by the driver's metric and over all columns.")

p(id="C27", title="Positions in the data do not wrap for data beyond 4 billion values",
  statement="However many rows and columns the data has, the place of a row's values in memory or in the data file, and the size of a block of rows, is computed in 64 bits from the row and column numbers. No worker, driver, task or reader computes or keeps such a place or size in 32 bits.",
  over=["inputs", "programs"],
  forall="all row and column counts whose product passes 2^32, all workers, drivers, tasks and readers of matrices",
  tests="Showing a wrapped position takes 32 GB of data; the tests have 50 rows.",
  files=["libman/thread.cpp", "libman/coordinator.cpp", "libman/task_queue.hpp", "libman/kmeans_task_thread.cpp", "libkcommon/io.hpp", "libkcommon/dense_matrix.hpp"],
  mech=[("row positions in workers and drivers", "local_data[row*ncol+col] in libman, coordinator::get_thd_data"), ("task positions", "task_queue::get_task"), ("file positions and block sizes", "thread::numa_alloc_mem, bin_io::read")],
  rule="wide.c27", tech="width-annotated value recovery: 32-bit products matched to the positions they reach", note="every position reached from drivers, worker phases, task queue, readers and dense matrix",
  explain="While the effect trees are built, each product computed or kept in a 32-bit type is recorded; a row-by-column product that is an index of row data, a file offset, or a block size must not be among them.")

p(id="C28", title="Mini-batch k-means moves each centre by the rows it sampled",
  statement="In every mini-batch pass each row is sampled with probability batch size over number of rows, and only sampled rows are given to a cluster. Each sampled row then moves the centre of its own cluster, exactly once and in all coordinates, to (1 - rate) * centre + rate * row, where the rate is one over the number of rows currently assigned to that cluster. Samples and distances of a pass are forgotten before the next one.",
  over=["inputs", "programs"],
  forall="all rows, columns, clusters, workers, batch sizes and passes of mini-batch k-means",
  tests="No test runs mini-batch k-means on more than a handful of rows, and any sample gives plausible centres.",
  files=["libman/kmeans_task_thread.cpp", "libman/kmeans_task_coordinator.cpp", "libkcommon/clusters.cpp"],
  mech=[("sampling", "kmeans_task_thread::mb_EM_step"), ("moves", "kmeans_task_thread::mb_finalize_centroids, clusters::scale_centroid"), ("rates and reset", "kmeans_task_coordinator::mb_iteration_end")],
  rule="minibatch.c28", tech="canonical effect summaries; polynomial comparison of the update and of the row indices", note="symbolic sizes, all samples",
  explain="The number remembered for a sampled row is followed from the worker to the place where it is used: the cluster and coordinates it selects there must be those of the same row, the new coordinate must be a convex combination as a polynomial identity, and the rate the reciprocal of the count of the cluster.")

p(id="C17", title="Every worker's thread is started once, told to exit, and joined once",
  statement="Every worker a driver builds has exactly one hardware thread started for it. When the driver is destroyed every worker is told to exit, leaves without running another phase or touching anything shared, and its thread is joined exactly once, before the lock and condition it waits on are destroyed.",
  over=["schedules", "histories", "programs"],
  forall="all drivers and workers, any number of workers, drivers that were run and drivers that were not",
  tests="Whether a thread outlives what it uses shows only when it is slow to leave; tests only build a driver, run it and end.",
  files=["libman/thread.cpp", "libman/thread.hpp", "libman/coordinator.cpp", "libman/*_coordinator.cpp", "libman/*.cpp"],
  mech=[("start", "start in libman/*.cpp, build_thread_state"), ("exit", "coordinator::~coordinator, destroy_threads, thread::wake, callback in libman/thread.hpp"), ("join", "thread::~thread, thread::join")],
  rule="lifecycle.c17", tech="typestate analysis of the hardware thread over the constructor, the service loop and the chain of destructors", note="all paths; every driver and worker class with its bases",
  explain="The tree of every start(), of every driver's construction and run, of the service loop and of the destructors in the order in which they run is walked on all paths: a thread handle goes from created to joined exactly once, its lock and condition are destroyed only afterwards, and a loop over all workers sends EXIT before the driver's members go.")

p(id="C05", title="Nothing is written by one thread while another one uses it",
  statement="While several threads work on a clustering at once - the workers in one phase of a run, or the threads of a parallel loop - each writes only what no other of them uses: its own rows' entries, its own slot of a table, its own partial sums. What they must share is written under a lock that they share or combined by a reduction.",
  over=["schedules", "inputs", "programs"],
  forall="all phases of every driver's workers and all OpenMP parallel regions of the library, any number of threads, rows and columns",
  tests="A race shows only in some schedules, mostly on data larger than the tests' and as a slightly wrong sum.",
  files=["libman/*.cpp", "libman/*.hpp", "libauto/kmeans.cpp", "libauto/min-tri-kmeans.cpp", "libkcommon/dist_matrix.cpp", "libkcommon/dense_matrix.hpp", "libkcommon/util.cpp", "libkcommon/thd_safe_bool_vector.hpp"],
  mech=[("phases of the workers", "run in libman/*.cpp: EM_step, kmspp_dist, Estep, Mstep, medoid_step, H_EM_step, partition_mean, H_split"), ("parallel loops", "#pragma omp in libauto, libman and libkcommon")],
  rule="races.c05", tech="effect and ownership analysis: disjointness of index expressions between threads", note="all OpenMP regions and all worker phases; symbolic row ranges and thread numbers",
  explain="The effects of every worker phase and of every OpenMP region are extracted with callees inlined. Every location that is reachable from more than one thread and written must be indexed by the thread's own number or rows (an injective function of them, within their bounds), or be written under a common lock, atomically or as a reduction; the same indices must be used where it is read. Insertions into shared maps and writes of single bits of packed vectors count as writes of the whole.")

p(id="C18", title="Memory and files the library acquires are released exactly once",
  statement="Every block of memory and every open file that the clustering library acquires for itself is released exactly once, with the release that matches how it was acquired, on every path that returns, and at the latest when the object that keeps it is destroyed. Nothing is used after its release, and memory that belongs to the caller is never released.",
  over=["histories", "inputs", "programs"],
  forall="all paths through every function of the library (without the R and Python bindings) that acquires, keeps or releases memory or files; all drivers, with and without a data file",
  tests="The tests run few configurations and do not look at memory: a block lost on an early exit, lost once per pass, or freed by a driver that was only given it, shows in none of them.",
  files=["libman/thread.cpp", "libman/task_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/task_queue.hpp", "libman/coordinator.cpp", "libman/fcm.cpp", "libman/fcm_coordinator.cpp", "libman/gmm_coordinator.cpp", "libman/gmm.cpp", "libdist/dist_coordinator.cpp", "libkcommon/io.cpp", "libkcommon/io.hpp", "libkcommon/dense_matrix.hpp"],
  mech=[("the rows of a worker", "thread::numa_alloc_mem, set_local_data_ptr, destroy_numa_mem; coordinator::~coordinator"), ("matrices", "dense_matrix::create, operator-, operator*; fcm_coordinator, gmm_coordinator, fcm"), ("pieces", "task_queue::get_task, task_thread::request_task, ~task_thread"), ("files", "thread::close_file_handle, store_cluster, bin_io"), ("buffers", "dist_coordinator::run")],
  rule="memory.c18", tech="ownership and typestate analysis", note="every acquisition of the library, all paths, loops to a fixed point",
  explain="Each acquisition is followed on all paths of the functions that make it (callees inlined) to its release, to the caller, or to the member that keeps it; a member must be released by its class's destructor or before being overwritten, with the counterpart of the acquisition and, for workers' rows, in the same size. Memory that comes from a parameter must reach no release.")

p(id="C06", title="Every row belongs to exactly one worker, which loads that row's data",
  statement="The rows are divided among the workers (and, in a distributed run, first among the processes) into consecutive ranges that together contain every row exactly once, the rows left over by the division included. Each worker gets the data of exactly its own rows, whether these are copied or referenced in memory or read from the file, and looking up a row by its number yields that row's data.",
  over=["inputs", "programs"],
  forall="all numbers of rows, columns, workers and processes, data in memory and on file; every threaded and distributed clustering driver",
  tests="Tests use a row count that the worker counts divide, or compare a result in which a few lost or misplaced rows do not show.",
  files=["libman/coordinator.cpp", "libman/thread.cpp", "libman/task_thread.cpp", "libman/*_coordinator.cpp", "libman/*.hpp", "libdist/dist_coordinator.cpp", "libdist/dist_task_coordinator.cpp"],
  mech=[("division of the rows", "coordinator::get_rid_len_tup, dist_coordinator::init"), ("worker construction", "*_coordinator::build_thread_state"), ("loading", "thread::numa_alloc_mem, set_local_data_ptr"), ("lookup", "coordinator::get_thd_data")],
  rule="rows.c06", tech="canonical effect summaries; algebraic proof over symbolic division and remainder", note="any number of rows, workers and processes; ranges shown to be consecutive and complete by polynomial identities",
  explain="The first row and length every constructed worker ends up with are extracted as symbolic expressions of the worker's number; with a % b = a - b*(a/b) it is shown that the first range starts at 0, each starts where the one before ends, and the last ends at the number of rows. The place and size of what a worker loads and the address computed by the lookup are compared with these ranges.")

p(id="C07", title="Every pass visits each of a worker's rows exactly once",
  statement="In every phase of a clustering run each worker goes through all the rows it owns, each exactly once, with that row's own data, and the per-row entries it reads and writes in tables shared by the workers are those of that row. A worker that hands out its rows to itself in pieces starts every phase with all of them and takes consecutive pieces that together contain each row exactly once.",
  over=["inputs", "programs"],
  forall="all numbers of rows, columns and workers, all phases of every threaded and distributed clustering driver",
  tests="The sample has far fewer rows than one piece of the pruned drivers' queues hold, and a skipped row rarely changes the clusters of well separated data.",
  files=["libman/kmeans_thread.cpp", "libman/kmeans_task_thread.cpp", "libman/medoid.cpp", "libman/fcm.cpp", "libman/xmeans.cpp", "libman/gmeans.cpp", "libman/hclust.cpp", "libman/skmeans.cpp", "libman/task_queue.hpp", "libman/task_thread.cpp", "libman/thread.cpp"],
  mech=[("row loops", "EM_step, kmspp_dist, medoid_step, Estep, Mstep, H_EM_step, partition_mean, H_split"), ("pieces", "task_queue::get_task, reset; task_thread::request_task; kmeans_task_thread::wake")],
  rule="rows.c07", tech="canonical loop ranges and index expressions compared with the worker's rows", note="symbolic row counts; every loop that touches row data found by its index, not by its place",
  explain="Every loop whose counter selects one of the worker's rows is found in the effect tree of each worker phase; its number of steps must be the number of rows, its first index the first row, and the index of every shared per-row entry the row's number. The queue's effects on its position, the size handed out and its end mark are compared with consecutive complete pieces.")

p(id="C29", title="A pass of fuzzy c-means computes its memberships and centres",
  statement="In every pass of fuzzy c-means each row's weight in a cluster is the inverse of its distance to the cluster's centre under the configured metric, raised to 1/(fuzziness-1); a row that coincides with a centre counts as extremely close to it. A row's weights are divided by their sum over the clusters and raised to the fuzziness, and each new centre is the mean of all rows of all workers weighted with these.",
  over=["inputs", "programs"],
  forall="all data, centres, metrics and fuzziness values, any number of clusters, rows and workers",
  tests="The only test runs three clusters on one data set with the default fuzziness and does not look at the centres.",
  files=["libman/fcm.cpp", "libman/fcm_coordinator.cpp", "libkcommon/dense_matrix.hpp"],
  mech=[("memberships", "fcm::Estep, fcm_coordinator::update_contribution_matrix"), ("centres", "fcm::Mstep, fcm_coordinator::update_centers"), ("matrix operations", "dense_matrix::sum, div_eq_pow, div_eq, operator+, operator+=, copy_from, peq")],
  rule="fuzzy.c29", tech="canonical effect summaries; algebraic identity of the extracted formulas; linear forms of the merged matrices", note="symbolic sizes; the merge shown for 1, 2, 3 and 5 workers, formulas compared as functions",
  explain="The effects of both worker phases and of the driver's pass are extracted with the matrix operations inlined. The expression stored as a membership is compared as a function of distance and fuzziness with the definition, ranges and indices with the rows and clusters, sums with the axis they must run over, and the value of the centres as a linear form in the workers' partial sums."

)

p(id="C30", title="K-medoids replaces a medoid by the cheapest sampled member of its cluster",
  statement="In every pass of k-medoids each worker offers for each cluster, of the rows it samples, the member whose sum of distances to all members of the cluster is smallest, and the best offer of all workers counts. A cluster's medoid becomes that row's data exactly when its sum is smaller than the present medoid's, which is the sum of the distances of all rows of the cluster to it; so a medoid is always a row of the data.",
  over=["inputs", "programs"],
  forall="all data, metrics and sampling rates, any number of clusters, rows and workers",
  tests="The only test runs one data set and does not look at the medoids.",
  files=["libman/medoid.cpp", "libman/medoid_coordinator.cpp"],
  mech=[("offers", "medoid::medoid_step"), ("choice", "medoid_coordinator::choose_global_medoids"), ("costs and members", "medoid::EM_step, medoid_coordinator::compute_globals, populate_membership")],
  rule="medoids.c30", tech="canonical effect summaries (sums, minima and the conditions of the stores)", note="symbolic sizes, all paths of the pass",
  explain="The cost a worker compares and stores must be the sum over the members of the row's cluster of the configured distance, stored with the row's global number under the same condition; the driver's reduction must take the minimum with its row, compare it strictly with the cost summed over all workers in the last assignment, and copy the row looked up by that number. The member lists must be cleared and refilled with exactly the rows assigned.")

p(id="C24", title="A hierarchical pass splits each unfinished partition between its two centres",
  statement="In a pass of hierarchical clustering, x-means or g-means every row of a partition that is still being refined goes to the nearer of that partition's two centres, and all other rows stay where they are. After the pass the partition's two centres and sizes are the means and numbers of the rows that all workers sent to them. The partition is finished exactly when no row of it changed sides or the share of its rows that did is at most the tolerance.",
  over=["inputs", "programs"],
  forall="all data, metrics and tolerances, any number of rows, columns, partitions and workers",
  tests="The tests run the hierarchical drivers on one data set and check that they end; they compare no partition with its rows.",
  files=["libman/hclust.cpp", "libman/xmeans.cpp", "libman/hclust_coordinator.cpp", "libkcommon/clusters.cpp", "libkcommon/types.hpp"],
  mech=[("halves", "hclust::H_EM_step, xmeans::H_EM_step"), ("sums, sizes and the end of a partition", "hclust_coordinator::update_clusters"), ("table of partitions", "vmap, vmap_iterator")],
  rule="hier.c24", tech="canonical effect summaries over a stand-in for the table of partitions, which is checked against it", note="symbolic sizes, all paths of the pass; the table of partitions by what it means",
  explain="The summary of a worker's pass must move a row to the half with the smaller distance, add its data and one member to that half's fresh sums and count the move under its partition's id, all under the same condition (active and not finished); the driver's summary must clear exactly the unfinished partitions, add every worker's sums and moves, divide by the sizes, publish the sizes under the halves' ids and finish the partition under exactly the stated condition.")

p(id="C22", title="Results are taken over, compared and written out completely",
  statement="The object a run returns holds every row's cluster, every cluster's number of rows and every coordinate of every centre the engine computed (for mixtures every mean, covariance, weight and row's responsibilities), in place; a hierarchical result numbers the clusters that have rows without gaps, alike for rows, numbers and centres. Two results are equal exactly when all of that is, of the same length. A saved result lists all of it in the documented form, and the file readers and writers of the library move exactly the values of the rows named, in order.",
  over=["inputs"],
  forall="all numbers of rows, columns and clusters, all values and all sets of surviving cluster ids",
  tests="No test reads a saved file back, and the results compared in tests are equal ones of one shape; equality ignored the last element and missing components without a test noticing.",
  files=["libkcommon/types.cpp", "libkcommon/types.hpp", "libkcommon/hclust_compactor.hpp", "libkcommon/util.hpp", "libkcommon/io.hpp", "libkcommon/io.cpp", "libkcommon/clusters.cpp"],
  mech=[("results", "cluster_t, gmm_t"), ("ids without gaps", "compactor::remap"), ("equality", "operator==, v_eq, eq_all"), ("the saved form", "cluster_t::write"), ("readers and writers", "bin_io, text_reader, bin_rm_reader, store_cluster")],
  rule="saved.c22", tech="effect summaries of constructors, equality, writers and readers, evaluated in order with symbolic values for a finite list of shapes and compared with what was given in", note="shapes are a list of small ones, chosen so that rows, columns and clusters differ; values stay names; how many digits a number is written with and failures of the disk are outside",
  explain="The interpreter summarises each constructor, comparison, writer and reader as a tree of effects. A walker unrolls that tree for a list of shapes (rows, columns and clusters all different, one of each, ids with gaps), keeping every data value as the name of the place it came from. Required: every place of the result holds the name it should, every list has its length; equality is true for equal objects and false for every single difference and every length; the text written is the documented one with every name in place; file calls move exactly the bytes of the rows. A shape is a template for all values, not for all shapes.")

p(id="C23", title="Options given to the programs reach the run, and bad input is refused",
  statement="Every clustering program starts exactly one run, of the engine its flags name, on the rows, columns and clusters of its plain arguments, and each option given (iterations, tolerance, threads, nodes, metric, first centres, centre file, and those of one algorithm only) has its value in that run, whatever other options are given with it. A given centre file replaces the initialisation, is read with the shape of the centres and becomes the first centres as a whole; what the run returns, and nothing else, is saved in the directory named with the output option, and nothing without it. A data file whose size does not match the stated rows and columns, a missing file, an unknown metric or initialisation, or no centres where they are called for end the program before the run.",
  over=["inputs"],
  forall="all programs, options and combinations of options given to them",
  tests="No test starts a program; they call the libraries, so nothing between the command line and the run is exercised.",
  files=["exec/knori.cpp", "exec/knord.cpp", "exec/mb_knori.cpp", "exec/skmeans.cpp", "exec/fcm.cpp", "exec/gmm.cpp", "exec/medoids.cpp", "exec/hmeans.cpp", "exec/xmeans.cpp", "exec/gmeans.cpp", "exec/kmeanspp.cpp", "libman/coordinator.cpp", "libkcommon/util.cpp"],
  mech=[("programs", "main in exec/*.cpp"), ("option parsing", "cxxopts::Options; getopt in knord"), ("names of metrics and initialisations", "get_dist_type, get_init_type"), ("where options end", "fields of the coordinators")],
  rule="options.c23", tech="effect summary of each main with the option parser given its meaning, followed through create and constructors to the fields of the coordinator; the summary evaluated over a finite table of option settings", note="each option alone, all together, with and without flags and centres; option values are representative numbers; the run itself is not entered",
  explain="The interpreter summarises main with symbolic option texts (given or not, and value), through the create functions and constructors, up to the call of the run. Each summary is then evaluated for a table of settings: each option alone with a value no default has, every metric and initialisation, all options together, and the bad inputs. Required: one run by the stated class, its fields equal to the values given, rows and centres traced to the file and shape they were read with and to room large enough for them, the saved object traced to the run's return value, and no run for the bad inputs.")

p(id="C26", title="Hierarchical splits keep every row, the cluster limit and the least size",
  statement="Between two passes of hierarchical clustering, x-means or g-means a half is split again, starting from two different rows of its own, unless it is smaller than the least size or the split would exceed the maximum number of clusters; then its centre enters the result under its id exactly when it has rows. A split that x-means or g-means rejects gives all rows of both halves back to the partition, with their number and its own centre. Ids in use are never given out again and the clusters are counted exactly, so the number of clusters never passes the maximum and every row's cluster has a centre.",
  over=["inputs", "histories"],
  forall="all data, limits, least sizes and sequences of splits and rejected splits",
  tests="The tests run each driver on one data set with one limit; the number of clusters was twice the limit and empty clusters were reported without a test noticing.",
  files=["libman/hclust_coordinator.cpp", "libman/hclust_coordinator.hpp", "libman/xmeans_coordinator.cpp", "libman/gmeans_coordinator.cpp", "libman/hclust_id_generator.hpp", "libkcommon/thd_safe_bool_vector.cpp"],
  mech=[("which halves are split", "hclust_coordinator::inner_init, at_cluster_cap"), ("a split", "hclust_coordinator::spawn, activate"), ("replaced partitions", "hclust_coordinator::init_splits"), ("rejected splits", "xmeans_coordinator::partition_decision, gmeans_coordinator::partition_decision"), ("ids", "hclust_id_generator")],
  rule="splits.c26", tech="canonical effect summaries of the steps between two passes; their conditions compared with the limits as functions; counting of net cluster changes per path", note="symbolic sizes, all paths; conditions on k, counts and least size compared on a grid that contains every order of the quantities",
  explain="The condition under which a half is made inactive and recorded must equal, as a function of the limit, the number of clusters, the least size and the halves' sizes, the one stated; rows a split starts from must be stored under a test that they lie in that half, in exclusive branches, never for an inactive half, and the search must not stop before both halves are served. A split's summary must register a partition under the half's id with two fresh active ids and a net count of plus one, a rejected split's summary must move both halves' rows, sizes and centre back with a net count of minus one, and the pair of ids, evaluated for every number of free ids, must be free or new and different.")

p(id="C31", title="Matrix and vector operations compute their definitions at every size",
  statement="For matrices and vectors of every size, element-wise sum, difference, division and power, the product, sums and means along an axis, the position of the largest entry along an axis, norms, inner products, equality, standardising and scaling give what their definitions say, with every entry taking part exactly once. The determinant is the signed sum over the minors of the first row, the adjoint holds in row j and column i the signed minor without row i and column j, and the inverse is the adjoint over the determinant unless that is zero. Copies and results have the shape of their operands.",
  over=["inputs"],
  forall="all sizes and all entries, negative ones included",
  tests="The tests multiply and invert a few fixed small matrices; several operations (largest entry of non-positive data, power into an existing vector, adjoint signs) were wrong without a test noticing.",
  files=["libkcommon/dense_matrix.hpp", "libkcommon/linalg.hpp"],
  mech=[("matrices", "dense_matrix"), ("determinant, adjoint, inverse, vectors", "linalg")],
  rule="matrix.c31", tech="canonical effect summaries of every operation compared with its definition; structural check of the recursion over minors", note="symbolic sizes; rounding is not considered",
  explain="Each operation's summary, its parameters called by position and its axis fixed to each legal value, must consist of its defining element-wise, reducing or copying effects over all entries, and returned values must be the defining sums. In determinant, adjoint and inverse the stores that fill a minor must leave out exactly one row and one column in order, before the smaller determinant is taken of that minor at one size less, and an entry of the adjoint must be indexed by the left-out column and row with alternating sign.")

na(id="C40", title="The objective never increases from one pass to the next",
  statement="In k-means, fuzzy c-means and medoid clustering the sum of the distances between rows and their centres (weighted by membership in the fuzzy case) does not increase from one pass to the next.",
  over=["inputs", "histories"], forall="all data, all passes", tests="Tests look at one small data set and at the end result only.",
  files=["libman/kmeans_coordinator.cpp", "libman/fcm_coordinator.cpp", "libman/medoid_coordinator.cpp"], mech=[("iteration", "run in libman/*_coordinator.cpp")],
  reason="Relates floating-point sums over all data of two passes; no static argument in reach bounds their rounding. That each pass assigns to the nearest centre and takes the exact means, from which it follows in real arithmetic, is decided by C08 and C09.")

na(id="C41", title="Pruned and unpruned k-means give the same clustering",
  statement="Started from the same centres, the pruned and the unpruned drivers give every row the same cluster after every pass.",
  over=["inputs", "histories"], forall="all data, initial centres, numbers of threads and processes", tests="Tests compare both on one data set.",
  files=["libman/kmeans_task_thread.cpp", "libman/kmeans_thread.cpp"], mech=[("both drivers", "kmeans_coordinator::run, kmeans_task_coordinator::run")],
  reason="Equality of two floating-point computations with different summation orders (ties and rounding decide); not decidable from the source. The bounds that justify every skipped distance are decided by C19.")

na(id="C42", title="Every run comes to an end within its iteration limit",
  statement="Every clustering run returns after finitely many steps for every input, also when no limit is given and rows keep moving between clusters at equal distance.",
  over=["inputs", "schedules"], forall="all data, all drivers, all limits", tests="A test that does not end is no test.",
  files=["libman/*_coordinator.cpp"], mech=[("loops", "run")],
  reason="Termination without a limit rests on a floating-point potential decreasing. What is static about it is claimed elsewhere: the stop conditions (C11) and that no hand-over can hang (C01 to C04).")

na(id="C43", title="Gaussian mixture estimates are the maximum-likelihood updates",
  statement="Each pass of the Gaussian mixture driver computes responsibilities, weights, means and covariances by the EM formulas, and reports the likelihood reached.",
  over=["inputs"], forall="all data", tests="No test runs the mixture driver.",
  files=["libman/gmm.cpp", "libman/gmm_coordinator.cpp", "libkcommon/linalg.hpp"], mech=[("E and M step", "gmm::Estep, gmm::Mstep")],
  reason="The mixture driver is unfinished upstream (its workers throw on k-means++ seeding, the determinant and inverse helpers are wrong in sign, see DESIGN.md); there is no correct behaviour on the current tree to compare with, and the rest is a question of numerics (singular covariances).")
