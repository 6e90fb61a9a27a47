#!/usr/bin/env python3
'''Writes properties.jsonl (kept as a script only so that the text stays readable).'''
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe_at=None, hook_needed=None):
    anchors = {'files': files, 'mechanism': [{'name': x, 'where': files[0]} for x in mechanism]}
    if state: anchors['state'] = [{'name': x, 'where': 'see files'} for x in state]
    if observe_at: anchors['observe_at'] = observe_at
    if hook_needed is not None: anchors['hook_needed'] = hook_needed
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext},
                  why_tests_cant=why, anchors=anchors))


p('P01', 'The parallel distance matrix equals the serial one under every schedule',
  'Computing the DTW distance matrix of a region with any number of parallel workers gives the same matrix as the '
  'single-process computation: the value for a pair of points is the DTW distance of exactly those two series, the '
  'matrix is symmetric and its diagonal is zero. '
  'This holds for every region shape, every number of workers and every order or interleaving in which the workers '
  'pick up and finish their tasks, and the same holds for any other pairwise operation run over a region in parallel. '
  'Series that contain missing values (NaN) have undefined distance to every other point and disturb no other pair.',
  ['schedules', 'inputs', 'configurations'],
  'all schedules of the worker pool (task pick-up order, preemption inside a task, lock hand-over), all region shapes '
  '(including 1xN, and more pairs than one chunk of work holds), worker counts and chunk sizes, and repeated runs.',
  'The tests compute one small region once, on whatever schedule the operating system happens to choose; a lost '
  'update, a mis-indexed cell for a non-square region or a dropped last chunk needs a schedule or shape they never meet.',
  ['spta/distance/dtw_parallel.py', 'spta/util/parallel.py', 'spta/distance/dtw.py'],
  ['work queue over all pairs of points', 'shared output array with lock', 'triangular computation, then symmetrised'],
  state=['shared input/output arrays', 'per-process globals installed by the pool initializer'],
  observe_at=['the matrix returned by computing the distances of a region'])

p('P02', 'Parallel overall forecast errors equal the serial ones under every schedule',
  'The overall forecast error of using each point\'s forecast for the whole region is, at every point, the same number '
  'whether it is calculated serially or by any number of parallel workers, for every error type, for whole regions and '
  'for clusters, with and without points that have no forecast. '
  'It does not depend on the order or interleaving in which workers run, and points outside a cluster never contribute '
  'to nor appear in the result.',
  ['schedules', 'inputs', 'configurations'],
  'all schedules of the worker pool, all region shapes and cluster memberships, the three error types, worker counts, '
  'and repeated calculations in one process.',
  'Tests compare one cluster on one operating system schedule; which worker writes which cell, and when, is never varied.',
  ['spta/model/error_parallel.py', 'spta/model/error.py', 'spta/region/spatial.py', 'spta/region/temporal.py'],
  ['pool of workers, one task per point', 'shared output array with lock', 'serial fallback without workers'],
  state=['shared output array', 'per-process globals installed by the pool initializer'],
  observe_at=['error value at each member point', 'minimum and maximum of the overall errors'])

p('P03', 'A failed parallel task is never published as a result',
  'If any task of a parallel distance or error calculation fails, or a worker dies, the calculation raises an error or '
  'does not finish: it never returns, and never leaves behind as a usable result, a matrix or error region in which the '
  'failed part is silently missing. '
  'A later calculation in the same process, with the fault gone, gives the complete correct result.',
  ['fault_sequences', 'schedules'],
  'every task at which the failure strikes (exception in the operation, failing open or write of the worker log, out of '
  'memory, killed worker), every schedule around it, and retries afterwards.',
  'No test makes a worker fail; the result arrays start as zeros, so a swallowed failure looks like a distance or an error of 0.',
  ['spta/util/parallel.py', 'spta/model/error_parallel.py', 'spta/distance/dtw_parallel.py', 'spta/distance/__init__.py'],
  ['errors propagate from workers to the caller', 'the stored matrix is only replaced after success'],
  state=['stored distance matrix of a distance measure'], observe_at=['return value or exception', 'stored distance matrix'])

p('P04', 'Walking a region visits every member point once, whatever happened before',
  'Iterating over a region, a cluster, a scaled region, an error region or a prediction result yields every member point '
  'exactly once, in row order, each with its own value or series. '
  'This is true for every iteration that is started, also after earlier iterations of the same region (or of the region '
  'it decorates) were abandoned half-way, were ended by an exception, or were cut by saving and reloading the region; and '
  'for everything derived by iterating: series lists, functions applied to the region, descaling, combined errors.',
  ['histories', 'fault_sequences', 'inputs'],
  'all histories of complete, abandoned and failed iterations, pickling round trips and derived operations, over every '
  'kind of region and decorator, shape and cluster membership.',
  'Tests only iterate freshly built regions to the end; the position of the walk is state that survives an interruption, '
  'which no test creates.',
  ['spta/region/base.py', 'spta/region/spatial.py', 'spta/region/temporal.py', 'spta/region/scaling.py',
   'spta/region/mask.py', 'spta/model/error.py', 'spta/solver/result.py'],
  ['self-iterating regions with an internal cursor', 'decorators that delegate the iteration'],
  state=['iteration cursor of a region'], observe_at=['sequence of (point, value) pairs', 'derived lists and regions'])

p('P05', 'A training failure at one point affects that point only',
  'When training a region of models, a point whose training fails gets no model and is counted as missing; every other '
  'point gets the model of its own series, as if nothing had failed, and forecasts are NaN exactly at the points without a model. '
  'When only representatives are trained no other point gets a model, and refitting keeps each point\'s own '
  'hyper-parameters and keeps points without a model empty. '
  'A training pass that is aborted by an unexpected error leaves no trace: repeating it gives the same models as an undisturbed run.',
  ['fault_sequences', 'histories', 'inputs'],
  'every subset of points at which training or refitting fails (numerical error, value error, unexpected error), region '
  'shapes, model kinds, representatives, and sequences of failed and repeated passes.',
  'Tests train a few healthy series; failures of the fitting routine come from the numerical library and cannot be '
  'provoked at chosen points without controlling it.',
  ['spta/model/train.py', 'spta/model/base.py', 'spta/arima/train.py', 'spta/arima/model.py', 'spta/model/mean.py',
   'spta/model/knn.py', 'spta/region/function.py'],
  ['failed fits become missing models', 'missing models forecast NaN', 'representative-only training', 'refitting'],
  state=['model regions', 'missing count'], observe_at=['model at each point', 'number of missing models', 'forecast at each point'])

p('P06', 'Cached dataset intervals always equal the data extracted from the raw dataset',
  'Asking for a year interval at 1 or 4 samples per day returns exactly the samples of those years (averaged per day for '
  '1 sample per day), whether it is extracted or read back from the cache, or the request fails with an error. '
  'This holds after any history of requests for other intervals and sampling rates, of crashes and disk errors while a '
  'cache file is written or read, and of several processes filling the same cache at once; a damaged or missing cache '
  'file is replaced by fresh data and never served.',
  ['crash_points', 'fault_sequences', 'schedules', 'histories'],
  'every byte at which a cache write is cut by a crash or a full disk, every order of requests, and every interleaving of '
  'the file operations of concurrent processes.',
  'The cache is exercised by tests only in its absence (they stub the dataset); no test interrupts a write.',
  ['spta/dataset/temp_brazil.py', 'spta/region/metadata.py', 'spta/util/maths.py'],
  ['cache file per interval and sampling rate', 'unreadable cache falls back to extraction', '4-to-1 sample averaging'],
  state=['raw/<name>_<years>_<spd>.npy cache files'], observe_at=['returned array', 'region created from metadata'])

p('P07', 'Distances read from a measure are always those of the region it serves',
  'Loading pre-computed distances gives the saved matrix or reports that none could be loaded; a missing, torn or '
  'half-written distance file never yields wrong distances and never stops an operation that can do without it. '
  'Distances to a point, medoids and distance statistics obtained through a measure equal those calculated from the '
  'series, after any history of loads, failed loads, computations and reloads, and spatially weighted distances are '
  'DTW plus weight times the Euclidean distance however often they are loaded or weighted.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all sequences of load, reload, weighting, compute and query operations, cut or failed at any file operation.',
  'Tests load an existing file once, or none; the second load, the torn file and the failed load are never sampled.',
  ['spta/distance/__init__.py', 'spta/distance/dtw.py', 'spta/region/centroid.py', 'experiments/region/distance.py'],
  ['matrix file per region', 'matrix kept in the measure', 'weight applied once', 'fall back to computing'],
  state=['stored distance matrix', 'distance file'], observe_at=['loaded matrix', 'distances to a point', 'medoid and its distances'])

p('P08', 'A cached partition is the partition that would be computed afresh',
  'Partitioning a region with a partition cache gives the same clusters and medoids as partitioning it without one: '
  'exactly the partition of the requested region, clustering parameters and distance measure, with medoids whenever they are asked for. '
  'This holds after any history of partitioning calls, crashes and disk errors at any file operation, damaged or missing '
  'cache files and concurrent processes; the cache and the CSV report are kept under the directories that were requested, '
  'and a report that was written without error is complete.',
  ['crash_points', 'fault_sequences', 'schedules', 'histories', 'configurations'],
  'every crash point and disk error inside saving and loading, orders of calls over different clusterings, regions, '
  'distance measures and cache directories, and interleavings of processes sharing the cache.',
  'Tests partition without a cache or save once and load once, under one set of parameters and with a healthy disk.',
  ['spta/clustering/__init__.py', 'spta/clustering/kmedoids.py', 'spta/clustering/regular.py', 'spta/region/partition.py', 'spta/util/fs.py'],
  ['pickle cache keyed by region, distance and clustering', 'unreadable cache is recomputed', 'CSV report'],
  state=['pickle files of partitions', 'CSV reports'], observe_at=['returned partition: labels and medoids', 'CSV report'])

p('P09', 'Clustering depends on data and parameters only, and is well formed',
  'The result of k-medoids depends on the series, k, the seed, the mode and the initial medoids alone: it does not depend on '
  'the state of any random generator, on earlier or interleaved clustering runs, on the clock or on whether distances were pre-computed. '
  'It always terminates with k distinct medoids, each a member of its own cluster, every point assigned to a nearest '
  'medoid, no empty cluster, the reported cost equal to the cost of the reported assignment, and a cost no higher than that '
  'of the initial medoids; unless it reached its iteration limit, no replacement of one medoid by a point that its mode considers '
  'lowers the cost by more than the tolerance; what the caller passed is not changed; the fuzzy variant gives memberships that sum to one.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all states of the random generators and clocks, all histories of earlier runs in the process, all data sets '
  '(including tied and duplicate series), k, seeds and modes.',
  'Tests fix one seed and one data set in a fresh process; reseeding by other code and interleaved runs are not sampled.',
  ['spta/kmedoids/kmedoids.py', 'spta/kmedoids/kmedoids_fuzzy.py', 'spta/clustering/kmedoids.py', 'spta/kmedoids/silhouette.py'],
  ['seeded random initial medoids', 'iterative medoid replacement until the cost stops improving', 'iteration bound'],
  state=['global random generator'], observe_at=['labels, medoids, cost of a clustering result'])

p('P10', 'A saved solver is restored exactly, or loading it fails',
  'Loading a saved solver gives a solver with the same partition, models and generalization errors, answering every '
  'prediction query as the solver that was saved; if any part is missing or incomplete, loading fails with an error rather than giving a '
  'solver that answers differently (a missing partition may be computed again). '
  'This holds for every crash point and disk error during training and saving, after any sequence of saving solvers with other '
  'parameters (region, clustering, model, test length, error type), and training and saving again always recovers.',
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'every file operation of training, saving and loading at which a crash or disk error can strike, and orders of saves and '
  'loads of solvers with different parameters sharing directories.',
  'Tests build solver paths and stub the rest; no test saves, crashes, and loads.',
  ['spta/solver/model.py', 'spta/solver/train.py', 'spta/solver/metadata.py', 'spta/clustering/__init__.py'],
  ['one pickle file per part of the solver', 'file names derived from all parameters', 'partition recomputed if missing'],
  state=['pickle directory of the solver'], observe_at=['answers of the loaded solver', 'error on load'])

p('P11', 'A prediction does not depend on the queries asked before it',
  'For a given solver, the answer to a prediction query (forecast, error, cluster and, for in-sample queries, test series at '
  'each point of the queried rectangle) depends on that query only: not on earlier queries, their order, forecast lengths or '
  'failures, nor on whether the solver was reloaded in between. '
  'At each point the forecast is the one of the model trained at the medoid of the point\'s cluster, on training data for '
  'in-sample and on all data for out-of-sample queries, brought back to the original scale of that point; results '
  'obtained earlier are not changed by later queries.',
  ['histories', 'fault_sequences', 'inputs'],
  'all sequences of in-sample and out-of-sample queries over any rectangles and forecast lengths, with failing queries '
  '(dataset unreadable, model failure, disk error) in between, for scaled and unscaled regions.',
  'Tests never ask two queries of one solver; the solver and its model regions keep state between queries.',
  ['spta/solver/model.py', 'spta/solver/train.py', 'spta/solver/result.py', 'spta/model/base.py', 'spta/region/scaling.py'],
  ['lazy preparation on first query', 'model regions remember the requested forecast length', 'descaling of forecasts'],
  state=['prepared flag, loaded region and test data', 'forecast length of a model region'],
  observe_at=['query results'])

p('P12', 'A prediction report that was saved without error is complete and correct',
  'Saving a query result writes one row per point of the queried rectangle, in order, each with the absolute coordinates, cluster (or label), '
  'error, forecast and, in-sample, the test series of that very point, and a summary with the figures of that result. '
  'If saving returns without an error both files are complete on disk; if it fails or the process dies, saving again '
  'produces the complete report, and reports of other queries are never touched, also when processes save at the same time.',
  ['fault_sequences', 'crash_points', 'histories'],
  'every file operation of saving at which a disk error or crash can strike, orders and repetitions of saves of different '
  'queries (rectangles, forecast lengths, in and out of sample), shapes and series lengths.',
  'Tests check rows in memory; nothing writes the report under a failing disk or twice.',
  ['spta/solver/result.py', 'spta/solver/metadata.py', 'spta/util/fs.py'],
  ['row per point by iterating the result', 'file names derived from the query', 'summary of errors and distances'],
  state=['CSV files', 'iteration cursor of the result'], observe_at=['CSV files'])

p('P13', 'A region that was saved can be restored exactly',
  'Saving a region (plain, scaled, or taken from one by cutting out a rectangle or time interval) and reading it back gives the same '
  'series at every point; for a scaled region also the same scale data, so that descaling it still gives the original series. '
  'Through any sequence of scaling, subsetting, splitting, saving, reloading and descaling, each point keeps its own '
  'series and its own scale; a save that was cut by a crash or disk error is reported by an error when it is read back, never as different data, and saving again repairs it.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'all sequences of scale, subset, split, save, reload and descale, and every file operation at which they can be cut.',
  'Tests scale and descale in memory once; saving a scaled region, chains of subsets and interrupted saves are not sampled.',
  ['spta/region/temporal.py', 'spta/region/scaling.py', 'spta/region/base.py', 'spta/region/metadata.py', 'spta/model/train.py'],
  ['dataset, minimum and maximum files', 'pickling of regions', 'scale data cut along with the series'],
  state=['region files'], observe_at=['series, scale data and descaled series at each point'])

p('P14', 'Every clustering of a suite gets its own result',
  'In a suite of clusterings, the partition, cost, silhouette score and elbow reported for a clustering are those of exactly that combination of '
  'parameters: clusterings that differ in any parameter (number of clusters, seed, mode) never share or overwrite results, and there is one '
  'elbow per seed. '
  'This holds whatever the order and history of evaluation, with cached, missing and damaged partitions in any '
  'mixture, and the medoids listed in a suite\'s result file are read back exactly as they were written (a file that was cut while it was '
  'written never gives other medoids).',
  ['histories', 'fault_sequences', 'configurations'],
  'all suites over several numbers of clusters and seeds, evaluation histories with crashes, warm and cold caches, and result files.',
  'Tests use one seed or stubbed costs; results that collide only when two seeds meet are out of reach.',
  ['spta/clustering/suite.py', 'spta/clustering/__init__.py', 'spta/clustering/kmedoids.py', 'spta/region/partition.py',
   'spta/clustering/silhouette.py', 'experiments/clustering/partition_analysis.py', 'experiments/clustering/medoid_distances.py'],
  ['results keyed by clustering metadata', 'elbow by second derivative per seed', 'suite result CSV'],
  state=['partition cache', 'suite result file'], observe_at=['partitions, costs and elbows per clustering', 'medoids per clustering'])

p('P15', 'Training data for the classifier is reproducible and valid under any history',
  'For a given region, suite result, count and seed, the training data written for the medoid classifier is always the same: '
  'distinct points of the region that are not medoids, each with its own series, labelled with a medoid of minimal distance '
  '(or whose saved solver has the minimal prediction error there, when that criterion is chosen) '
  'among those still below the threshold, and the histogram counts exactly the labels that were written. '
  'The state of the random generators, earlier runs and interrupted or failed writes do not matter: a run that returns without an error left both '
  'files complete. The file with the series of all medoids of a suite has one row per medoid, with its own series.',
  ['histories', 'fault_sequences', 'crash_points', 'inputs'],
  'all states of the random generators, histories of runs with other seeds, counts and thresholds, and disk errors or crashes '
  'at every file operation.',
  'Tests of this part need the original dataset and cannot run; none varies the generator state or fails a write.',
  ['spta/classifier/train_input.py', 'spta/util/maths.py', 'spta/clustering/suite.py'],
  ['seeded sampling without replacement', 'threshold on repeated labels', 'two CSV files'],
  state=['global random generator', 'CSV files'], observe_at=['rows of the training file', 'rows of the histogram'])

p('P16', 'Classifier-driven predictions use the labelled model in any history',
  'When predictions are driven by a classifier, each point is forecast by the model trained at the medoid its label names, from the '
  'saved solver with the parameters the label names, and its error is the one of that forecast; the answer depends on the query only, not on '
  'earlier queries, other target regions queried before, or solvers loaded before. '
  'A solver that is missing or damaged makes the query fail with an error, and the same query succeeds once the solver '
  'is available again.',
  ['histories', 'fault_sequences', 'configurations'],
  'all sequences of queries over rectangles, target regions and labels, with solver files missing, torn or restored in between.',
  'Tests do not run this part at all; its cache of loaded solvers and prepared data only matters from the second query on.',
  ['spta/classifier/model.py', 'spta/solver/model.py', 'spta/solver/metadata.py', 'spta/clustering/kmedoids.py'],
  ['cache of loaded solvers', 'lazily prepared data', 'label names clustering and cluster'],
  state=['cache of solvers', 'prepared regions'], observe_at=['query results'])

p('P20', 'A forecast analysis reports the errors of the region it is asked about',
  'For a region (plain, scaled or a cluster) and any model trainer, a forecast analysis reports: the forecast and error of each point\'s own model, '
  'the errors when one point\'s model (or each of them in turn) forecasts the whole region, and the overall error of all models together, '
  'of the best and the worst single model, of the model with the smallest local error and of the model at the region\'s centroid '
  '(undefined without one); errors are measured in the original scale, points without a model count nowhere. '
  'The numbers depend on the region and the models only: not on the number of workers and their schedule, the order and number of '
  'the steps, regions analysed before with the same object, nor earlier aborted steps; after a training that failed no step '
  'answers with the models of one region and the data of another. The region stays unchanged.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all sequences of analyses and single steps on analysis objects over several regions, trainers with any failed points, error types, '
  'worker counts and schedules, and exceptions at any line of any step.',
  'No test runs a whole analysis; the object keeps the models, forecasts and errors of one region between steps, which only '
  'matters from the second region or the first failure on.',
  ['spta/model/forecast.py', 'spta/model/error.py', 'spta/model/error_parallel.py', 'spta/model/train.py'],
  ['train, forecast at each point, repeat each forecast over the region', 'lazily computed forecasts kept between steps'],
  state=['models, forecasts and error analysis kept by the object'],
  observe_at=['forecast and error at each point', 'overall errors: each, minimum, min_local, centroid, maximum'])

p('P21', 'A program run from the command line delivers the results of its arguments',
  'Every program (training and querying a solver with models at medoids, at each point, of nearest neighbours or of the mean past; '
  'analysis of training errors; errors around and between medoids; calculation of the distances of a region; ARIMA forecast; elbows, '
  'analysis and medoid distances of a suite of clusterings) delivers the results of its own arguments and of the dataset: '
  'the reports hold the right figures for every cluster, model and point, '
  'what is printed agrees with them, defaults apply where an argument is omitted, and arguments that make no sense are refused with nothing written. '
  'The results do not depend on the programs run before, on the worker count, nor on reports, models, distances and partitions '
  'left behind by others with other arguments, whose files stay as they were. A program that could not write or read its files says so, and '
  'never reports figures of something else; run again without faults it delivers the right results.',
  ['histories', 'inputs', 'fault_sequences', 'crash_points', 'schedules'],
  'all sequences of programs and arguments over shared stores, one after the other or two at once, with crashes and disk errors at every '
  'file operation, exceptions at any line, lost and damaged files.',
  'Tests call functions and objects, no program; the effect of one program on the next only shows with both run on one store.',
  ['experiments/auto_arima', 'experiments/arima', 'experiments/baseline', 'experiments/clustering', 'experiments/region',
   'experiments/metadata', 'spta/solver', 'spta/model'],
  ['argparse programs', 'reports named after their arguments', 'stores shared between programs'],
  state=['solvers, models, distances, partitions and reports in the file system'],
  observe_at=['exit of each program', 'printed answers', 'contents of every report'])

p('P22', 'A saved figure shows the values of what it is for',
  'Every figure that a program saves shows the data of its own region, clustering, cluster, model, error type and query: figures of distances '
  'against errors pair the distance of every point of the cluster to the medoid with the error of the model of the medoid at that same point; '
  'variance histograms show, on an axis of its own for each cluster (arranged in order, as the parts of a regular partition), the distances of its points to its medoid with the bins asked for, their '
  'statistics, and, if asked for, as many different random points outside the cluster as requested (or as there are), all within the axis; silhouette '
  'figures show the partition, the silhouette of every point with the label and colour of its cluster, and their mean, and the last one to be shown by '
  'k-medoids with silhouettes is the best of its suite; figures of distances show those to the first and to the middle point; '
  'figures of queries show the partition, its medoids and the rectangle of the query. They are complete when the program ends, whether windows stay '
  'open or are closed, clusters have one point or models are missing; reports are the same with and without figures; a figure that could not be saved '
  'is an error; figures for other arguments stay as they were.',
  ['inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules', 'programs'],
  'all sequences of programs that save figures, options of figures, random draws, sizes and numbers of clusters, with crashes and disk errors at every '
  'file operation.',
  'No test makes a figure; what a figure shows depends on state shared by the whole process (the current figure), random draws and the order in '
  'which points of a cluster are visited.',
  ['spta/distance/variance.py', 'spta/clustering/silhouette.py', 'spta/kmedoids/silhouette.py', 'spta/util/plot.py', 'spta/util/maths.py', 'spta/model/forecast.py',
   'spta/solver/model.py', 'experiments/clustering/partition_analysis.py', 'experiments/region/distance.py',
   'experiments/auto_arima/distance_errors.py'],
  ['matplotlib figures saved next to the reports', 'current figure of the process', 'random points outside a cluster'],
  state=['open figures of a process', 'random generator', 'saved figures'],
  observe_at=['points, bars, images, rectangles, axes and texts of each saved figure', 'exit of each program'])

p('P17', 'Forecast error measures follow their published formulas',
  'MASE, sMAPE, MSE and the combined errors computed for any forecast, observation and training series equal their definitions.',
  ['inputs'], 'all series triples.',
  'Tests check a handful of series.',
  ['spta/util/error.py', 'spta/util/arrays.py'], ['closed formulas over arrays'])

p('P18', 'Regular partitioning covers the region with k balanced rectangles',
  'For every region shape and every number of clusters that fits, the regular partition assigns each point to exactly one of k '
  'rectangular clusters.',
  ['inputs'], 'all shapes and cluster counts.', 'Tests check a few shapes.',
  ['spta/clustering/regular.py', 'spta/region/partition.py', 'spta/util/maths.py'], ['balanced divisors'])

p('P19', 'Sliding windows contain every window once with its label and offset',
  'Applying a window to labelled series yields, for each series and offset, exactly one row with the values at that offset and the label of that series.',
  ['inputs'], 'all tables of series and window sizes.', 'Tests check two small tables.',
  ['spta/classifier/sliding_window.py', 'spta/util/arrays.py'], ['rolling windows over a table'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
