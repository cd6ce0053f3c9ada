# property -> proof units (unit name -> '*' or list of function regexes that carry this property), trusted items, assumptions
TREE_INV = 'the tree invariant (partition, covering radius, resolvable links) as a precondition of the query functions; it is what P01-P03 decide'
BUILD_A = ['distances are finite, symmetric, non-negative and zero from a point to itself (P14)', 'rayon::spawn runs the task once (read as running it at once); crossbeam channels deliver every message once in any order; atomic counters are integers', 'scale_base > 1 and log/powi/ceil are the real functions, ceil of a logarithm fits an i32', 'floats read as reals']
# what a reader reports about layers and children: carries P03 only
OBS = r'(?!(CoverTreeReader::(layers|layer|len|is_empty|node_count|scale_range|get_node_children_and)|CoverLayerReader::(len|is_empty|scale_index|get_node_children_and)|CoverNode::(children|children_len))$).*'
PROPS = {
 'P01': dict(units={'build': [OBS]},
     note='Every function of the builder that decides where a point goes - the point caches, the two splitting rules, node construction and the recursive split_parallel - discharged for every point cloud, rule and parameter set: each node accounts for exactly the points handed to it, and the theorem t_partition over the grown tree says each point is stored once and every coverage count is exact. The thread pool and the message channel are read as a sequential traversal and a bag.',
     assumptions=BUILD_A),
 'P02': dict(units={'build': [OBS]},
     note='The same contracts carry the covering invariant: cache distances are the true ones, children keep exactly the points strictly inside their ball that no earlier or nearer sibling claims (predicates first_rule and nearest_rule), radii are the largest covered distance; t_covering, t_covering_kid and t_radius lift it to whole trees. Powers and logarithms of the scale base are real functions.',
     assumptions=BUILD_A),
 'P03': dict(units={'build': '*'},
     note='split and split_parallel are proved to send, for every node, the address its parent records, the parent it was reached from and a strictly smaller scale; t_links and l_uni say that every recorded link names exactly one sent node. The queue that files every message under its layer, the layer writers and the observers a user reads the structure with (layers, layer, len, node_count, scale_range, children, parents, layer lengths) are under contract too: layers() pairs every layer with its own scale, top first, node_count is the number of filed nodes.',
     assumptions=BUILD_A),
 'P04': dict(units={'knn': [r'(?!.*(for_centers|routing_knn)).*']},
     note='All obligations of the kNN query code discharged for every tree that satisfies the tree invariant, every query, every k; floats read as reals. Trusted: std collections shims, point-cloud distance trait.',
     assumptions=[TREE_INV, 'HashMap/BinaryHeap behave as a map / a priority queue for the proved order']),
 'P21': dict(units={'bulk': '*'},
     note='All eight functions of BulkInterface discharged for every list of queries and every function mapped: one answer per query, in order, each the one of the single query; chunking and joining included, also for the rows of an array in any layout.',
     assumptions=['chunks of a slice are its consecutive pieces in order; rayon keeps the order of an indexed parallel iterator and runs the closure once per item (read as sequential)', 'a clone of a reader answers like the reader', 'the mapped function is total', 'ndarray gives the row asked for']),
 'P22': dict(units={'config': '*', 'build': [r'BuilderNode::(split|split_nearest|split_first)', r'CoverTreeBuilder::build']},
     note='Builder defaults, setters, from_yaml and build discharged: the configuration asked for is the one the tree gets. split is proved to make leaves at the cutoff and below the resolution, and to leave nodes with children without singletons when these are off; the generator of every split is the one of seed ^ centre. That equal draws give equal trees whatever the schedule is covered by bounded exploration (two builds compared node by node).',
     assumptions=BUILD_A + ['yaml-rust reads the file and its accessors answer for entries of their own kind', 'the draws of SmallRng depend on its seed only']),
 'P23': dict(units={'loaders': '*'},
     note='Every loader of pointcloud/src/loaders and both tree builders over configuration files discharged: what comes back is the concatenation of the files listed (rows of later files numbered after those of earlier ones, lemma l_rows), labels are the cells of the column asked for (negative, missing: no label; unreadable: an error) or the class of the label row, and a count that differs from the rows there are is refused.',
     assumptions=['files, globbing (in alphabetical order), gzip, CSV, YAML and memory mapping deliver what the file contains; a loader refuses by panicking', 'data files hold whole rows; a pattern matches at least one file', 'HashGluedCloud::new, DataRam::len, SmallIntLabels::merge, VecLabels::new/one_hot_to_int/binary_to_int, CoverTreeBuilder::from_yaml/build: contracts decided by units glued, clouds, labels, config, build']),
 'P24': dict(units={'discrete': [r'.*::(sample|total)'], 'gauss': [r'.*::sample']},
     note='Both discrete samplers discharged: the outcome is the one whose share of [0, total) the uniform draw falls into, shares being as long as the weights, hence never an outcome without weight; nothing is drawn from an empty distribution. The Gaussian sampler is discharged: coordinate i is the mean plus the i-th standard normal value times the standard deviation. That the generator is uniform (normal) and the frequencies come out accordingly is covered by bounded exploration.',
     assumptions=['rand: Uniform::new(0, t) draws uniformly from [0, t); StandardNormal yields independent standard normal values; sample_iter(rng).take(n) is the list of the next n draws']),
 'P25': dict(units={'fractal': '*', 'tracker': [r'BayesCategoricalTracker::fractal_dim_stats', r'l_on', r'vtop']},
     note='node_fractal_dim, node_weighted_fractal_dim, layer_fractal_dim, layer_weighted_fractal_dim, the accessors they use and the tracker totals per layer discharged for every tree: the numbers the logarithm is taken of are exactly the counts (weights divided by the largest) of the children, nested child included, and singletons.',
     assumptions=['children of a node are nodes of the tree (P03); coverage counts are exact (P01)', 'the published map lists each entry once (P08)', 'log is the real logarithm, floats read as reals', 'Iterator::max is the largest element']),
 'P13': dict(units={'gauss': [r'(?!.*::sample$).*']},
     note='Every method of DiagGaussian discharged for all inputs and histories (moments as real numbers); generic over the point type.',
     assumptions=['PointRef::dense_iter yields the coordinates of the point in order (decided by P19 for the shipped points)']),
 'P09': dict(units={'discrete': [r'.*::(new|total|prob_vector|ln_prob_vector|add_child_pop|remove_child_pop|add_observation|add_evidence|merge|weight)']},
     note='Every constructor, update, merge and read-out of Categorical and Dirichlet discharged for all states with sorted categories and all inputs.',
     assumptions=['slice::binary_search_by_key on a sorted slice behaves as documented']),
 'P10': dict(units={'discrete': [r'.*::(total|ln_pdf|kl_divergence|posterior_kl_divergence)']},
     note='Log-probabilities and divergences proved equal to their formulas matched by category, zero on identical summaries, absence conditions exact; ln, ln_gamma and digamma are uninterpreted functions.',
     assumptions=['ln, statrs ln_gamma and digamma are the mathematical functions they name', 'slice::binary_search_by_key on a sorted slice behaves as documented']),
 'P14': dict(units={'metrics': '*'},
     note='Every dense, norm and sparse kernel of L1 and L2 for f32 and the six further element types, and Metric::dist, discharged for all lengths and index sets.',
     assumptions=['f32::sqrt and abs are the real square root and absolute value; element casts to f32 are exact']),
 'P17': dict(units={'summ': '*'},
     note='add, combine, count and default of every summary type and of SummaryCounter discharged against "is the summary of exactly this list of observations"; combine is proved to describe the concatenation.',
     assumptions=['sums and counts fit their machine integers, vector labels have one common positive length (stated preconditions)', 'derived Default gives empty/zero fields']),
 'P20': dict(units={'serve': '*', 'http': '*'},
     note='Routing (parse_http and the three parameter parsers), every request kind (KnnRequest, RoutingKnnRequest, PathRequest, ParametersRequest and TrackerWorker::process), the dispatch with its map of named trackers (CoreReader::process), reading the body in whatever chunks it arrives, with termination (PointBuffer::switch, poll_point), the msgpack body format (MsgPackDense::parse), the answer text and status (into_http), and both worker loops with their reply messages (GokoHttp::new, InternalServiceOperator::new, request/respond) discharged for every request and every state of the trackers. The regular expressions and the interleaving of worker tasks are covered by bounded exploration only.',
     assumptions=['the tree and the trackers answer as decided by P04-P06, P11 and P12', 'async functions read as the sequence of their steps: a task runs alone between its awaits, each worker handles one message at a time (tokio channels are FIFO)', 'the three regular expressions find their parameter; hyper delivers the body chunks in order; serde_json, rmp_serde and flate2 are functions of their input', 'a panic inside a request is caught; the state it leaves is not described']),
 'P18': dict(units={'labels': [r'(SmallIntLabels|VecLabels).*']},
     note='new, len, label, label_summary, merge, one_hot_to_int and binary_to_int discharged for all label data, masks and index lists; reading CSV and YAML label files is checked by bounded exploration only.',
     assumptions=['indexes asked for are below the number of labels, masks have one entry per label (the constructors of the crate establish it)', 'CSV parsing and file access are outside the contracts']),
 'P19': dict(units={'points': '*'},
     note='SparseRef/RawSparse construction and accessors, dense(), dense_iter() and every next() discharged for all dimensions, value and index lists; dense slices of f32 and the six integer element types likewise.',
     assumptions=['reads through the raw pointers return the elements of the slices they were taken from (offsets are proved in range)', 'indexes rise strictly and lie below the dimension', 'element and index conversions are exact']),
 'P15': dict(units={'clouds': [r'(DataRam|DataMemmap|PointCloud|SimpleLabeledCloud|SimpleNamedCloud|AdjMatrix|chunk).*']},
     note='DataRam/DataMemmap rows, lengths, names and merge, the wrapping clouds, both batch-distance functions (sequential and chunked parallel branch, every chunk size), both moments, the dense array and matrix and AdjMatrix::get discharged for all data, dimensions and index lists; AdjMatrix::min and opening files by bounded exploration only.',
     assumptions=['a mapped file is the slice of floats it holds', 'rayon runs the closure once per chunk (parallel loop read as sequential, the mutex as the value it guards)', 'decimal text of a number parses back to it']),
 'P16': dict(units={'glued': [r'HashGluedCloud.*']},
     note='new, get_address, point, label, metadata, name, len, reference_indexes, index, label_summary, metasummary and reindex discharged for every list of part clouds and every index map: each answer is the one of the part the address names; names() is covered by bounded exploration only.',
     assumptions=['the part clouds answer every index below their own length (the PointCloud contract decided by P15 and P19)', 'part lengths fit usize']),
 'P08': dict(units={'mono': '*'},
     note='Construction, every write (insert, remove, purge, generic operation log), metadata, pending, flush, refresh, waiting for readers, dropping the writer and every keyed read discharged for all histories: what readers see is exactly the state of all writes up to the last refresh, and the copy is replaced only after each reader was seen to have left it. Interleavings of reader and writer threads and for_each/map_into are covered by bounded exploration only.',
     assumptions=['atomics act as sequentially consistent cells; the contract of a function speaks about the state between its own steps, other threads are not modelled', 'clones of keys, values and metadata equal the original', 'an update closure is a function of the value it is given', 'fewer than 2^63 reads per handle']),
 'P11': dict(units={'tracker': [r'(BayesCategoricalTracker|KLDivergence).*', r'l_.*']},
     note='new, add_path, append, both evidence updates, sequence_len, the two probability vectors, the per-node divergences, their statistics, the whole-tree divergence and the baseline statistics (accumulate, mean and variance, interpolation) discharged for every history of paths and every window size and the per-layer totals; baseline training by bounded exploration only.',
     assumptions=['the tree answers priors and singleton counts by address (P12, P03)', 'VecDeque, HashMap and binary_search behave as documented', 'derived clones equal the original', 'every path added has at least one node']),
 'P12': dict(units={'plugidx': [r'(GokoCoverageIndexes|CoverageIndexes|CoverNode|l_).*'], 'plugdisc': [r'(GokoCategorical|GokoDirichlet|CoverNode|l_cov).*'], 'pluglab': [r'(LabelSummaryPlugin|MetaSummaryPlugin|CoverNode).*'], 'pluggauss': [r'(GokoDiagGaussian|CoverNode).*'], 'addplug': '*'},
     note='node_component of the covered-index, categorical, Dirichlet, label, metadata and Gaussian plugins discharged for every node: given that the children carry the summaries of their own points, the node gets the summary of exactly the points stored at or below it. add_plugin discharged against the same contract: it visits every node of every layer, calls node_component only when the children of the node already show their own components (layers from the finest up, each published before the next), and leaves every node showing a right component.',
     assumptions=['the tree answers the summary attached to an address (P08 for the map behind it)', 'children are different nodes and coverage counts are right (P01, P03)', 'sums and counts fit their machine integers', 'the cloud answers labels, metadata, points and moments as decided by P15-P18']),
 'P07': dict(units={'saveload': '*', 'paths': [r'CoverTreeWriter::refresh_final_indexes']},
     note='CoverNode, CoverLayerWriter and CoverTreeWriter save and load, every getter and setter of the generated messages they use, discharged against "this message encodes this node / layer / tree"; lemmas l_node, l_layer, l_tree prove that two things encoded by one message are the same, which is the round trip. The rebuilt final-address map is the one of P06. Turning a message into bytes and back (protobuf) and the file functions are covered by bounded exploration only.',
     assumptions=['protobuf writes a message to bytes and reads the same message back', 'no node has the parent link (i32::MIN, u64::MAX), the pair that stands for no parent; nodes sit under their own centre (P03)', 'the lock-free map answers its last published state and visits every entry once (P08)', 'usize is 64 bits']),
 'P06': dict(units={'paths': '*'},
     note='nearest_covering_child, first_covering_child, path, known_path, the node lookup through layers and the rebuilding of the final-address map discharged for every tree that satisfies the tree invariant, every query point and every index, with termination of both path loops. Floats read as reals.',
     assumptions=[TREE_INV, 'the lock-free map answers its last published state (P08)', 'batch distances are the true ones (P15)']),
 'P05': dict(units={'knn': [r'(?!.*(::knn|singleton_knn|singleton_covering|greedy_knn_nodes$)).*']},
     note='routing_knn, the greedy expansion it repeats, child_knn and every heap operation discharged for every tree that satisfies the tree invariant, every query and every k: the answer is an exact k-nearest answer among the centres of the nodes. Floats read as reals.',
     assumptions=[TREE_INV, 'HashMap/BinaryHeap behave as a map / a priority queue for the proved order']),
}

NOT_APPLICABLE = {
}
