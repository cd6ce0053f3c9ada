#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only so that long strings stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    P.append(d)

p('P01','The tree is a partition of the data set, with exact coverage counts',
  'A tree built over a point cloud stores every point exactly once: either as a singleton of exactly one node, or as the centre of exactly one leaf. The coverage count reported by every node equals the number of distinct points stored at or below it, so the root reports the size of the data set and each node reports its singletons plus the counts of its children (a leaf counts its own centre).',
  ['inputs','configurations'],'every non-empty point cloud without NaN, every scale base > 1, leaf cutoff, minimum resolution, singleton flag, partition rule and seed',
  'The unit tests build two tiny one-dimensional trees and MNIST and check a handful of counts; the property must survive every geometry, including duplicates, ties and extreme spreads.',
  ['goko/src/covertree/data_caches.rs','goko/src/covertree/builders.rs','goko/src/covertree/node.rs'],
  [('splitting caches into close and far points','CoveredData / UncoveredData split fns in data_caches.rs'),('coverage bookkeeping','CoverNode::insert_nested_child, insert_child, insert_singletons, insert_singleton'),('node expansion','BuilderNode::split in builders.rs')],
  ['CoverTreeReader node traversal: singletons(), children(), coverage_count()'])
p('P02','Every covered point lies within its node\'s covering radius',
  'For every node of a built tree below the root, every point stored at or below it is strictly closer to the node\'s centre than the scale base raised to the node\'s scale index (for the root: at most that far), and the radius the node records is the largest such distance over the points it covers other than its own centre. Points handed to different children are split so that a child keeps exactly the points inside its own ball that no earlier (first rule) or nearer (nearest rule) sibling claims.',
  ['inputs','configurations'],'every point cloud, metric and builder configuration',
  'No test measures covering distances; they sample paths on a five-point tree.',
  ['goko/src/covertree/data_caches.rs','goko/src/covertree/builders.rs'],
  [('threshold splits','data_caches.rs split fns'),('radius computation','max_distance in data_caches.rs'),('next scale choice','builders.rs')],
  ['CoverNode::radius, address, children, singletons'])
p('P03','Tree links are sound: every address resolves, parents and children agree',
  'From the root, following the nested child and the child addresses of any node always reaches an existing node whose recorded address is the one followed, whose recorded parent is the node it was reached from, and whose scale is strictly smaller; the nested child has the same centre as its parent. Every node is filed under the layer of its own scale, the layer listing pairs each layer with its true scale, and the node and layer counts agree with what a traversal finds.',
  ['inputs','configurations'],'every tree built from any data and configuration, and every address reachable in it',
  'The existing dangling-reference test walks one tree; the layer test checks one configuration.',
  ['goko/src/covertree/tree.rs','goko/src/covertree/layer.rs','goko/src/covertree/node.rs','goko/src/covertree/builders.rs'],
  [('scale to layer index','CoverTreeParameters::internal_index'),('layer listing','CoverTreeReader::layers / scale_range'),('child insertion','CoverNode::insert_nested_child / insert_child')],
  ['CoverTreeReader::layers, get_node_and, node_count'])
p('P04','k-nearest-neighbour queries are exact',
  'For any query point and any k, the nearest-neighbour query returns min(k, n) distinct data points with their true distances in non-decreasing order, and no data point left out is closer than any point returned. This holds for every shape of tree, including trees with singletons, duplicates and ties.',
  ['inputs','configurations'],'every tree, query point and k (including k = 0 and k > n)',
  'The tests ask for two neighbours on a five-point line; pruning errors only show for particular geometries and heap orders.',
  ['goko/src/covertree/tree.rs','goko/src/covertree/node.rs','goko/src/covertree/query_tools/knn_query_heap.rs','goko/src/covertree/query_tools/query_items.rs'],
  [('best-k heap and pruning bound','KnnQueryHeap::push_nodes, push_outliers, max_dist'),('work lists','closest_unvisited_child_covering_address / closest_unvisited_singleton_covering_address'),('search loop','CoverTreeReader::knn, greedy_knn_nodes, CoverNode::child_knn, singleton_knn')],
  ['CoverTreeReader::knn'])
p('P05','Routing-node nearest-neighbour queries are exact',
  'For any query point and any k, the routing query returns the min(k, m) nearest of the m distinct centres of tree nodes (points that are only singletons are ignored), with their true distances in non-decreasing order, and no node centre left out is closer than any centre returned.',
  ['inputs','configurations'],'every tree, query point and k',
  'No test exercises the routing query on a tree where the search meets a leaf before the end.',
  ['goko/src/covertree/tree.rs','goko/src/covertree/node.rs','goko/src/covertree/query_tools/knn_query_heap.rs'],
  [('routing loop','CoverTreeReader::routing_knn, greedy_knn_nodes')],['CoverTreeReader::routing_knn'])
p('P06','Path queries follow covering children and agree with stored paths',
  'A path query returns a chain of nodes from the root in which each next node is a child of the previous one (its nested child included), each is reported with the query\'s distance to its centre and strictly covers the query, and under the nearest rule the child chosen is a nearest one while under the first rule it is the first covering one; the chain stops only at a node none of whose eligible children covers the query. For a stored point the path by index ends at the node where the point is stored, runs from the root through parent links, and an index outside the tree yields an error, never a panic.',
  ['inputs','configurations'],'every tree, every query point (dimension matching, no NaN) and every index',
  'Tests check one path on a five-point tree for decreasing scales.',
  ['goko/src/covertree/tree.rs','goko/src/covertree/node.rs'],
  [('child choice','CoverNode::nearest_covering_child, first_covering_child'),('path loop','CoverTreeReader::path'),('stored path','CoverTreeReader::known_path')],
  ['CoverTreeReader::path, known_path'])
p('P07','Saving and loading a tree preserves it',
  'Saving a tree and loading it back over the same point cloud yields a tree with the same configuration (scale base, leaf cutoff, resolution, singleton flag, partition rule), root, layers and nodes: every node keeps its address, parent, radius, coverage count, singletons, nested scale and children in order. Queries by point, by index and nearest-neighbour queries on the loaded tree answer exactly as on the original.',
  ['inputs','configurations'],'every tree that can be built or loaded',
  'The round-trip test compares three fields on one tree built with singletons off.',
  ['goko/src/covertree/node.rs','goko/src/covertree/layer.rs','goko/src/covertree/tree.rs','goko/src/utils.rs'],
  [('node encoding','CoverNode::save / load'),('layer encoding','CoverLayerWriter::save / load'),('tree encoding','CoverTreeWriter::save / load, refresh_final_indexes')],
  ['CoverTreeWriter::save, load; utils::save_tree, load_tree'])
p('P08','Readers see exactly the last published state of a map',
  'Readers of the lock-free map observe precisely the state produced by all writes up to the last refresh applied in order, and nothing of the writes after it, for every sequence of inserts, updates, removals, clears and refreshes. Once two refreshes have followed the last write, both internal copies are equal to that state, and refreshing again changes nothing. A read that is going on keeps the state it began with until it ends: the writer neither changes nor frees the copy it uses, also when reads nest or overlap, handles are cloned, or the writer is dropped meanwhile.',
  ['histories','schedules'],'every finite sequence of write operations interleaved with refreshes, and every way reads overlap them',
  'The map has tests for single inserts and updates; divergence between the two copies needs particular mixes of operations and refreshes.',
  ['goko/src/monomap/write.rs','goko/src/monomap/read.rs','goko/src/monomap/inner.rs'],
  [('operation log and double application','WriteHandle::refresh, apply_first, apply_second, add_op in write.rs'),('epochs: readers announce a read, the writer waits for them','MonoReadHandle::with_handle, MonoWriteHandle::wait, drop')],
  ['reader get_and / for_each / len after refresh'])
p('P09','Discrete count distributions stay consistent under every update',
  'After any sequence of additions, removals and merges, a category\'s weight in the counting or Dirichlet summary is the sum of what was added minus what was removed, never going below zero (merging adds the other side\'s weights, each category independently), and the reported total equals the sum of the category weights. The probability of a category is its weight divided by that total; the probability and log-probability vectors list every known category once with these values and are absent exactly when the distribution is empty.',
  ['inputs','histories'],'every sequence of updates with non-negative counts over any categories',
  'Tests perform one or two updates on two or three categories.',
  ['goko/src/plugins/discrete/categorical.rs','goko/src/plugins/discrete/dirichlet.rs'],
  [('counts','Categorical / Dirichlet add_pop, add_child_pop, add_outlier_pop, remove, merge, total')],
  ['ln_pdf / prob_vector / total on the plugin types'])
p('P10','Divergences between discrete summaries follow their definition',
  'The log-probability of a category and the divergence between two discrete summaries equal the textbook formulas (for plain counts the Kullback-Leibler sum over the categories with positive weight in the first, for Dirichlet summaries the divergence of the two Dirichlet densities over those categories), matched by category whatever the order of insertion. They are zero between identical summaries; the divergence of counts is absent when either side is empty or the second gives no weight to a category the first has (that of two Dirichlet summaries asks for the same categories on both sides). The posterior divergence is the one from the prior to the prior plus the evidence, and is absent when the evidence names a category the prior does not know.',
  ['inputs'],'every pair of discrete summaries with non-negative weights',
  'Tests compare a few fixed pairs whose categories are inserted in the same order.',
  ['goko/src/plugins/discrete/categorical.rs','goko/src/plugins/discrete/dirichlet.rs'],
  [('formulas','Categorical::kl_divergence, ln_pdf; Dirichlet::kl_divergence, ln_pdf')],['kl_divergence, ln_pdf'])
p('P11','Trackers count exactly the observations in their window',
  'At every moment a sequence tracker\'s evidence at each node equals the number of paths in its current window that leave that node through each child (or stop there), where the window is the last w paths added in order, or all of them when no window is set. Adding a path when the window is full removes exactly the oldest one, the reported length is the number of paths in the window, and the running statistics describe exactly these counts. Appending a tracker with the same window size adds the other\'s paths in order. A baseline answers its recorded mean and variance at a recorded length and interpolates linearly between (and past) recorded lengths. Training a baseline records it at the lengths 1, 1+r, 1+2r, ... (sample rate r) up to the sequence length asked for (all training points by default), from trackers fed that many different training points, one for every sequence asked for.',
  ['histories','inputs'],'every sequence of tracked paths and every window size',
  'Tests track a few paths without windows, or check only that lengths grow.',
  ['goko/src/plugins/discrete/tracker.rs','goko/src/plugins/discrete/baseline.rs'],
  [('window maintenance','BayesCategoricalTracker::add_path, add_trace_to_pdfs, remove_trace_from_pdfs')],
  ['BayesCovertree tracker getters'])
p('P12','Per-node summaries equal recomputation over the covered points',
  'For every node, an attached summary (label counts, metadata summary, covered-index list, child distribution, Gaussian moments) equals the same summary computed directly from the points stored at or below that node, each point counted once, whatever the tree\'s shape. In particular the root\'s summary describes the whole data set and a node without points of some category reports none of it.',
  ['inputs','configurations'],'every tree, label or metadata source and node',
  'Tests attach the plugins to one tree and check a single field at the root.',
  ['goko/src/plugins/mod.rs','goko/src/plugins/utils.rs','goko/src/plugins/labels.rs','goko/src/plugins/discrete/dirichlet.rs','goko/src/plugins/gaussians/diag_gaussian.rs'],
  [('bottom-up aggregation','GokoPlugin::node_component of each plugin'),('application to every node','CoverTreeWriter::add_plugin')],
  ['get_node_plugin_and, get_node_label_summary, get_node_metasummary'])
p('P13','Diagonal Gaussian summaries track exact moments',
  'After any sequence of adding points, removing previously added points and merging, a diagonal Gaussian\'s count, first and second moments are those of the multiset of points currently included; its mean and variance are the sample mean and the mean of squares minus the square of the mean. The log-density of a point and the divergence between two such summaries are those of the diagonal Gaussian with these means and variances.',
  ['inputs','histories'],'every sequence of additions, removals and merges of vectors of one dimension',
  'Tests add points to one Gaussian and check the mean and variance once; removal is not tested.',
  ['goko/src/plugins/gaussians/diag_gaussian.rs'],
  [('moment updates','DiagGaussian::add_point, remove_point, merge'),('derived quantities','mean, var, kl_divergence')],['DiagGaussian getters'])
p('P14','Metrics compute their textbook distance',
  'The L2 distance of two dense vectors of equal length is the square root of the sum of squared coordinate differences, and the L1 distance is the sum of absolute coordinate differences, for any length including those not a multiple of the vector width; distances are symmetric, non-negative and zero on equal points. The sparse versions give the distance of the dense vectors they stand for, whatever the overlap of their index sets.',
  ['inputs'],'every pair of equally long vectors without NaN, and every pair of sparse vectors with increasing indexes',
  'Tests compare single pairs of fixed length; tails and disjoint sparse supports are not enumerated.',
  ['pointcloud/src/metrics/l2_f32.rs','pointcloud/src/metrics/l1_f32.rs','pointcloud/src/metrics/l2_misc.rs','pointcloud/src/metrics/l1_misc.rs'],
  [('dense loops','l2_dense_f32, l1_dense_f32'),('sparse merge loops','l2_sparse_f32, l1_sparse_f32')],['Metric::dist'])
p('P15','Point clouds address points and batch distances correctly',
  'Point i of an in-memory or memory-mapped dense cloud is exactly the i-th row of its data and indexes past the end give an error rather than another point or a panic; its length is the number of rows and names round-trip to indexes. A batch of distances, to a point or to a stored index, has one entry per requested index in the requested order, each equal to the metric between the two points; the adjacency list and moments agree with their definitions over the requested indexes.',
  ['inputs'],'every data matrix, dimension, batch size (below and above the parallel chunk size) and index list',
  'Tests use small batches of one dimension, never crossing a chunk boundary.',
  ['pointcloud/src/data_sources/memmap_ram.rs','pointcloud/src/base_traits.rs'],
  [('row addressing','DataRam::point / len'),('batches','PointCloud::distances_to_point, distances_to_point_index, adj, moment_subset in base_traits.rs')],
  ['PointCloud trait methods'])
p('P16','A glued cloud is the union of its sources',
  'A cloud glued from several sources has as many points as they have together, and global index g resolves to one source and one local index such that all points of all sources are reached exactly once, in source order. Point, label, metadata and name lookups of a global index answer what the owning source answers for the local one, looking up a name gives the global index, and indexes past the end give an error. Re-indexing by a one-to-one map moves exactly the requested entries and keeps the rest; a refused re-indexing changes nothing.',
  ['inputs'],'every list of sources with any sizes, and every index or reindexing',
  'Tests glue three equal sources of fixed size.',
  ['pointcloud/src/glued_data_cloud.rs'],
  [('address map','HashGluedCloud::new, get_address, reindex, take_subset')],['HashGluedCloud as PointCloud / LabeledCloud'])
p('P17','Label and metadata summaries are additive',
  'A summary accumulates exactly what it is given: each present value is counted once, each absent value increases the missing count, each failed lookup the error count. Combining two summaries gives the summary of the concatenated inputs, whatever the order or grouping, and combining with an empty summary changes nothing.',
  ['inputs','histories'],'every sequence of additions and combinations, of every summary type',
  'Tests add a handful of values to one summary and combine once.',
  ['pointcloud/src/summaries/mod.rs'],
  [('accumulation','SummaryCounter::add, combine; per-type Summary::add, combine')],['SummaryCounter fields'])
p('P18','Label sources return the label stored for each point',
  'A label source reports as many entries as points and gives, for each index below that number, exactly the label stored there, or nothing for a masked (unlabelled) index, a negative entry of a CSV file included; its summary over a list of indexes counts each listed label once and each masked one as missing. Merging two sources appends the second\'s entries, masks included, and converting one-hot or categorical labels to integers preserves which points share a label.',
  ['inputs'],'every label vector, mask, label dimension and index',
  'Tests query two or three labels of one-dimensional sources without masks.',
  ['pointcloud/src/label_sources/mod.rs'],
  [('lookup and masking','SmallIntLabels, VecLabels, label(), merge, one_hot_to_int')],['LabelSet implementations'])
p('P19','Sparse and dense views of a point agree',
  'A sparse point and its dense expansion denote the same vector: the dense view has exactly the declared number of coordinates, with each stored value at its index and zero elsewhere, including leading and trailing zeros. Iterating, densifying and comparing give the same result in either representation.',
  ['inputs'],'every dimension and every increasing set of stored indexes, including none',
  'Tests iterate one sparse vector whose last coordinate is non-zero.',
  ['pointcloud/src/points/mod.rs','pointcloud/src/data_sources/sparse_ram.rs'],
  [('densifying iterator','SparseDenseIter::next, SparseRef::dense_iter')],['RawSparse / SparseRef / dense_iter'])
p('P20','The query server answers each request from the tree, with the request\'s parameters',
  'Each HTTP request is routed by its path and method to the one operation it names, with k, the window size and the tracker name taken from the parameters of that name and the default k = 10 and the unnamed tracker used only when none is given. The point is read from the whole body, however it is chunked, compressed (gzip: zlib stream, zlib: raw deflate) or not. Malformed bodies, content types and numbers, and points of the wrong dimension, produce an error response (or some answer) and never take the server, the connection or a tracker down. Answers carry exactly what the library query returns for the same point, and trackers are isolated by name and window size and shared by all connections.',
  ['inputs','schedules','histories'],'every request and interleaving of requests',
  'No test of the server crate runs a malformed request or two interleaved clients.',
  ['serve_goko/src/http/service.rs','serve_goko/src/parsers/mod.rs','serve_goko/src/parsers/msgpack_dense.rs','serve_goko/src/api/knn.rs','serve_goko/src/api/tracker.rs','serve_goko/src/core/internal_service.rs'],
  [('routing and parameters','parse_http and parse_*_query in http/service.rs'),('body reader','PointBuffer::poll_point'),('trackers','CoreReader::process, TrackerWorker::process')],['HTTP responses'])
p('P21','Bulk queries give the answers of the single queries, one per query, in order',
  'Asking the bulk interface for the paths, stored paths, nearest neighbours or routing neighbours of a list of points or indexes gives a list with exactly one answer per query, in the order of the queries, each the answer the reader gives for that query alone. The same holds for the general forms that map a function over indexes, over points or over the rows of an array in any memory layout. It holds for every number of queries, none included.',
  ['inputs'],'every tree, list of queries (any length) and array layout',
  'One test asks a hundred-odd queries; the batches are cut into chunks, so lengths around the chunk size, empty lists and unusual array layouts decide.',
  ['goko/src/query_interface/mod.rs'],
  [('cutting into chunks and joining the answers','BulkInterface::index_map_with_reader, point_map_with_reader, array_map_with_reader')],
  ['BulkInterface::path, known_path, known_path_and, knn, routing_knn, *_map_with_reader'])
p('P22','A tree is built with the configuration asked for, and a seed makes the build reproducible',
  'The scale base, leaf cutoff, minimum resolution, singleton flag, partition rule and seed set on a builder, or given in a configuration file (an entry the file lacks takes its default: base 2, cutoff 1, resolution -10, singletons on, nearest rule, no seed), are exactly those the tree is built with and reports. A node that covers no more points than the leaf cutoff, or lies below the minimum resolution, has no children; a node that covers more and lies above it is divided, unless its points are so far apart that it holds each of them as a singleton; with singletons switched off no node with children holds any. Building again over the same cloud with the same configuration and seed gives the same tree, node for node, with children and singletons in the same order.',
  ['inputs','configurations','schedules'],'every configuration (in code or in a file), every point cloud and every thread schedule of the build',
  'Tests build with one or two fixed configurations and never twice with the same seed; builds are parallel, so reproducibility depends on the schedule.',
  ['goko/src/covertree/builders.rs','goko/src/covertree/tree.rs'],
  [('reading and setting the configuration','CoverTreeBuilder::from_yaml and setters'),('leaf decision','BuilderNode::split'),('random choice of centres','SmallRng seeded with seed ^ centre index in BuilderNode::split_nearest / split_first')],
  ['CoverTreeReader::parameters and node traversal'])
p('P23','A cloud loaded from files holds exactly the rows of the files, in order, each with its own label',
  'Loading data files (given as a list, or named by a pattern in a configuration file, which is taken from the folder of that file unless it is absolute) gives a cloud with exactly the rows the files hold, those of each file in order and the files in the order of the list (for a pattern: of their names), with the dimension asked for. Labels come from the label files in the same way: the integer in the column asked for of a plain or gzipped CSV file, where a negative number or a missing column means no label and a field that is no integer is an error; the label row itself; the first class above one half of a row with several numbers; or yes/no for a single number. A tree built from a configuration file is built over that cloud with the settings of the file, and a count in it that differs from the number of rows is refused.',
  ['inputs','files'],'every number of files, size, dimension, label form, column and pattern',
  'No test loads more than one file, a gzipped or short CSV, or a configuration with labels.',
  ['pointcloud/src/loaders/mod.rs','pointcloud/src/loaders/yaml_loaders.rs','pointcloud/src/loaders/csv_loaders.rs','pointcloud/src/data_sources/memmap_ram.rs','goko/src/utils.rs'],
  [('joining files','open_memmaps, convert_glued_memmap_to_ram'),('label columns','read_csv, labels_from_yaml'),('configuration files','ram_from_yaml, labeled_ram_from_yaml, vec_labeled_ram_from_yaml, cover_tree_from_yaml')],
  ['loaders::*, utils::cover_tree_from_yaml, cover_tree_from_labeled_yaml'])
p('P24','Sampling a summary draws each outcome as often as its weight says',
  'Drawing from a counting or Dirichlet summary yields each child, or the node itself (no child), with probability its weight divided by the total, whatever the weights are (whole, fractional, total below one): an outcome without weight is never drawn, every outcome with weight can be, and an empty summary draws nothing rather than fail. Drawing from a diagonal Gaussian of one or more points yields a point of its dimension with finite coordinates, coordinate i being normal with the mean and standard deviation of coordinate i and independent of the others; a coordinate on which all points agree is drawn as that value (up to the rounding of the moments).',
  ['inputs','random draws'],'every distribution of weights, every set of points and every state of the generator',
  'No test draws a sample; the faults show only for fractional, tiny or no weights and for constant coordinates.',
  ['goko/src/plugins/discrete/categorical.rs','goko/src/plugins/discrete/dirichlet.rs','goko/src/plugins/gaussians/diag_gaussian.rs'],
  [('discrete draws','Categorical::sample, Dirichlet::sample'),('Gaussian draws','DiagGaussian::sample')],
  ['Categorical::sample, Dirichlet::sample, ContinousDistribution::sample for DiagGaussian'])
p('P25','Fractal dimension estimates count exactly the children and singletons there are',
  'The fractal dimension of a node with children or singletons is the logarithm, to the scale base, of the number of its children (the nested one included) and singletons; the weighted one counts each child as the number of points it covers, and each singleton as one point, divided by the largest number a child covers (by one if it has no children). The fractal dimension of a layer is the logarithm of the number of all children and singletons of its nodes less that of the number of its nodes; the weighted one weighs the children and singletons, and the nodes themselves, in the same way. A tracker reports for each layer the number of its nodes that paths of the window pass through, and the sum of the points these cover, divided by the largest of them.',
  ['inputs','configurations','histories'],'every tree, node, layer, and history of tracked paths',
  'No test computes a fractal dimension.',
  ['goko/src/covertree/tree.rs','goko/src/covertree/node.rs','goko/src/covertree/layer.rs','goko/src/plugins/discrete/tracker.rs'],
  [('counts under the logarithm','CoverTreeReader::node_fractal_dim, node_weighted_fractal_dim, layer_fractal_dim, layer_weighted_fractal_dim'),('totals per layer','BayesCategoricalTracker::fractal_dim_stats')],
  ['CoverTreeReader::*_fractal_dim, BayesCategoricalTracker::fractal_dim_stats'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
