#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only for readable diffs).
import json,os
H='include/routingkit/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))
CH='src/contraction_hierarchy.cpp'; CHH=H+'contraction_hierarchy.h'
CCH='src/customizable_contraction_hierarchy.cpp'; CCHH=H+'customizable_contraction_hierarchy.h'
notest="The tests that exercise this need road data that is not shipped, so they are not among the tests that run; the ones that run sample a handful of fixed graphs."

p('C01','Contraction hierarchy queries return the exact shortest-path distance',
 'For every directed graph (parallel arcs, self loops, zero weights and unreachable nodes included) whose path lengths stay below infinity, a distance query on the contraction hierarchy built from it returns exactly the length of a shortest path from source to target in the input graph. If there is no path, it returns the infinity weight.',
 ['inputs','configurations'],'all graphs, weights, source/target pairs, and all values of the witness-search effort parameter',
 notest,[CH,CHH],[('witness search and shortcut insertion',CH+':ShorterPathTest, contract_node'),('bidirectional upward search with stalling',CH+':ContractionHierarchyQuery::run')],observe=['ContractionHierarchyQuery::get_distance'])
p('C02','Hierarchies built for a given node order are exact and respect that order',
 'Building a contraction hierarchy for a caller-supplied node order or rank succeeds for every permutation, yields exactly that order/rank, and its distance queries are exact for every such permutation and every witness-search effort.',
 ['inputs','configurations'],'all node permutations, graphs, weights and witness-search pop limits',notest,[CH,CHH],
 [('build_given_rank / build_given_order',CH),('sorting, loop and multi-arc removal',CH)],observe=['ContractionHierarchy::rank','ContractionHierarchy::order','get_distance'])
p('C03','Contraction hierarchy paths are real shortest paths of the input graph',
 'The node path and the arc path a contraction hierarchy query returns describe one connected walk from the source to the target using arcs of the input graph by their input ids, and the weights along it sum to exactly the reported distance. If the target is unreachable both paths are empty.',
 ['inputs'],'all graphs, weights and source/target pairs',notest,[CH,CHH],
 [('recursive shortcut unpacking',CH+':unpack_forward_arc/unpack_backward_arc'),('mapping of shortcuts to input arcs',CH+':build_unpacking_information')],observe=['get_node_path','get_arc_path'])
p('C04','Multi-source and multi-target queries minimise over offsets',
 'With several sources and targets added with distance offsets, a hierarchy query returns the minimum over all source/target pairs of source offset + shortest distance + target offset, and reports a used source and used target that attain it; adding the same node twice keeps the smaller offset. If no pair is connected, the distance is infinity.',
 ['inputs','histories'],'all sets of sources/targets with offsets, in any insertion order, for contraction hierarchies and customizable contraction hierarchies',notest,[CH,CHH,CCH,CCHH],
 [('queue initialisation with offsets',CH+':add_source/add_target'),('used source/target tracking via predecessors',CH+':get_used_source')],observe=['get_distance','get_used_source','get_used_target'])
p('C05','Pinned one-to-many and many-to-one queries equal individual queries',
 'After pinning a list of targets (or sources), running from any source set (to any target set) returns for every list position the exact shortest distance, in list order and for lists with duplicates, and repeated runs with new sources on the same pinned list stay exact. Reported used sources/targets attain those distances.',
 ['inputs','histories'],'all graphs, pinned lists and sequences of resets and runs on one query object',notest,[CH,CHH],
 [('selected subgraph of the pinned search space',CH+':pin, run_to_pinned'),('per-run cleanup',CH+':reset_source/reset_target')],observe=['get_distances_to_targets','get_distances_to_sources','get_used_sources_to_targets','get_used_targets_to_sources'])
p('C06','Contraction hierarchy query objects are reusable without memory of the past',
 'After a reset, a query object behaves exactly like a freshly constructed one, whatever sequence of sources, targets, runs, early aborts and resets (including a reset onto another hierarchy and more than 65536 resets) preceded it.',
 ['histories'],'all histories of operations on one query object',notest,[CH,CHH,H+'timestamp_flag.h',H+'id_queue.h'],
 [('timestamped visited flags',H+'timestamp_flag.h'),('queue clearing and state machine',CH+':reset')],observe=['get_distance','get_node_path'])
p('C07','Extra weights are aggregated along the shortest path that is returned',
 'For an extra weight attached to the input arcs and any link operation, the extra weight distance of a contraction hierarchy query equals the left-to-right linking of the extra weights of the arcs on the returned arc path, including through pinned queries; the saturating addition never wraps around but sticks to its maximum.',
 ['inputs','configurations'],'all graphs, weights, extra weights (also non-commutative link functions) and queries','One runnable test samples fixed graphs with one or two link functions.',[CHH,CH],
 [('shortcut extra weight precomputation',CHH+':ContractionHierarchyExtraWeight::reset'),('path and pinned aggregation',CHH+':get_extra_weight_distance(s_*)')],observe=['get_extra_weight_distance','get_extra_weight_distances_to_targets'])
p('C08','Saved contraction hierarchies load back identically; damaged files are rejected',
 'Writing a contraction hierarchy and reading it back yields a hierarchy that answers every query identically and whose data arrays are equal; the writer emits exactly the announced number of bytes. A file whose magic number or total size does not match its header is rejected with an exception instead of being loaded.',
 ['inputs','fault_sequences'],'all hierarchies, and all corruptions of header words and file sizes','No test that runs saves or loads a hierarchy at all.',[CH,CHH,H+'vector_io.h'],
 [('write/read of arrays',CH+':ContractionHierarchy::write/read'),('size and magic checks',CH+':read')],observe=['ContractionHierarchy::save_file/load_file/write/read'])
p('C09','Customizable contraction hierarchy distances are exact for every metric',
 'For every graph, every node order and every weight vector (infinity weights marking closed arcs included), a customizable contraction hierarchy that has been customized answers distance queries with exactly the shortest-path distance in the input graph under these weights. This holds with and without filtering of always-infinite arcs.',
 ['inputs','configurations'],'all graphs (parallel arcs, loops), permutations as order, weight vectors, source/target pairs',notest,[CCH,CCHH],
 [('chordal supergraph construction',CCH+':constructor'),('triangle customization',CCH+':customize'),('elimination tree query',CCH+':CustomizableContractionHierarchyQuery::run')],observe=['CustomizableContractionHierarchyQuery::get_distance'])
p('C10','Customizable hierarchy paths are real shortest paths of the input graph',
 'Node and arc paths returned by a customizable contraction hierarchy query form a connected source-target walk in the input graph (arc ids being input arc ids) with finite weights that sum to exactly the reported distance; they are empty if the target is unreachable.',
 ['inputs'],'all graphs, orders, metrics and source/target pairs',notest,[CCH,CCHH],
 [('lower-triangle unpacking',CCH+':get_node_path/get_arc_path'),('input arc lookup',CCH+':input_arc mappings')],observe=['get_node_path','get_arc_path'])
p('C11','Pinned customizable queries equal individual queries',
 'On a customizable contraction hierarchy, distances from any source set to a pinned target list (and from a pinned source list to any target set) equal the exact point-to-point distances in list order, duplicates included, also for repeated runs and after re-pinning.',
 ['inputs','histories'],'all graphs, orders, metrics, pinned lists and run sequences',notest,[CCH,CCHH],
 [('pinned elimination-tree sweep',CCH+':pin_targets/run_to_pinned_targets')],observe=['get_distances_to_targets','get_distances_to_sources'])
p('C12','Partial customization equals customizing from scratch',
 'After any set of input arc weights changes, updating exactly those arcs through partial customization leaves every arc of the metric with the same weight as a full customization under the new weights, for increases, decreases, and changes to and from infinity, also across several rounds.',
 ['inputs','histories'],'all graphs, orders, old and new weights, and sequences of update sets',notest,[CCH,CCHH],
 [('change propagation over lower/upper triangles',CCH+':CustomizableContractionHierarchyPartialCustomization::customize')],observe=['metric forward/backward weights','get_distance'])
p('C13','Parallel customization equals sequential customization',
 'Customizing with the parallel customization yields exactly the metric of the sequential customization, for every number of threads and every interleaving of the threads.',
 ['schedules','inputs'],'all thread interleavings, thread counts, graphs, orders and weights',notest,[CCH,CCHH],
 [('level-synchronous processing with atomic minimum',CCH+':CustomizableContractionHierarchyParallelization::customize')],observe=['metric forward/backward weights'])
p('C14','Perfect customization yields an exact contraction hierarchy',
 'The contraction hierarchy extracted by perfect customization of a metric answers distance and path queries exactly as the input graph under that metric demands.',
 ['inputs'],'all graphs, orders and metrics',notest,[CCH,CCHH,CH],
 [('upper/intermediate triangle relaxation and arc filtering',CCH+':build_contraction_hierarchy_using_perfect_witness_search')],observe=['ContractionHierarchyQuery on the result'])
p('C15','Metric and query resets of customizable hierarchies leave no stale state',
 'Resetting a metric to new weights and customizing again, resetting a query to another metric (of the same or of another customizable hierarchy), and any prior sequence of queries on the same object never change later answers: they equal those of fresh objects.',
 ['histories'],'all sequences of resets, customizations and queries','One runnable test replays a few fixed sequences on fixed graphs.',[CCH,CCHH],
 [('query reset',CCHH+':CustomizableContractionHierarchyQuery::reset'),('lazy clearing of tentative distances',CCH)],observe=['get_distance','get_node_path'])
p('C16','Dijkstra is exact, settles in order, and is reusable',
 'Running Dijkstra settles nodes in non-decreasing distance order, each at most once, with exact shortest distances from the nearest source, ignoring arcs of infinite weight; reached flags, distances, node paths and arc paths are consistent with that. After a reset, also onto another graph, earlier runs have no influence.',
 ['inputs','histories'],'all graphs, weight functions, source sets, abort points and reset sequences',notest,[H+'dijkstra.h',H+'id_queue.h',H+'timestamp_flag.h'],
 [('settle/relax loop',H+'dijkstra.h')],observe=['settle','get_distance_to','get_node_path_to','get_arc_path_to'])
p('C17','The addressable priority queue always pops a minimum',
 'For every sequence of insertions, key decreases, key increases, peeks, pops, clears and swaps, the id queue holds exactly the ids a reference set would hold with their current keys, and peek/pop return an element with the smallest key.',
 ['histories'],'all valid operation sequences, ids and keys','No runnable test targets this queue.',[H+'id_queue.h'],
 [('4-ary heap with position index',H+'id_queue.h')],observe=['peek','pop','contains_id','get_key','size'])
p('C18','The ordered id set queue behaves like a sorted set of ids',
 'For every capacity and every sequence of insertions, pops and clears, the id set queue contains exactly the inserted and not yet popped ids without duplicates, and peek/pop return the smallest of them (or the invalid id when empty).',
 ['histories','configurations'],'all capacities and operation sequences','The test runs one random sequence.',[H+'id_set_queue.h'],
 [('implicit binary tree of bits',H+'id_set_queue.h')],observe=['peek','pop','contains','empty'])
p('C19','Sorting helpers return the (stable) sorted order for every input',
 'For every vector, key range and comparator, the sorting functions return exactly the sorted multiset, sort permutations are permutations that sort their vector, inverse variants are their inverses, stable variants keep equal elements in input order, and the sortedness tests are right; the number of keys relative to the number of elements does not matter.',
 ['inputs','configurations'],'all vectors, key counts, comparators','Tests sample a few fixed vectors.',[H+'sort.h'],
 [('bucket sort with comparator fallback',H+'sort.h')],observe=['compute_*_sort_permutation_*','*_sort_using_*','is_sorted_using_*'])
p('C20','Permutation and inverse-index helpers satisfy their algebra',
 'Permutation recognition, inversion, chaining, application and inverse application satisfy their defining equations for every permutation, and applying a permutation to possibly invalid elements keeps invalid ids; the inverse index of a sorted vector brackets exactly the positions of each value and converting it back restores the vector. Filtering by a bit vector keeps exactly the selected elements in order, and min/max helpers return the first extreme element.',
 ['inputs'],'all permutations, sorted vectors, filters','Tests sample a few fixed vectors.',[H+'permutation.h',H+'inverse_vector.h',H+'filter.h',H+'min_max.h'],
 [('permutation algebra',H+'permutation.h'),('inverse vector',H+'inverse_vector.h')],observe=['all functions of these headers'])
p('C21','Bit vectors behave like arrays of booleans of their size',
 'For every size and every sequence of construction, copy, move, resize, growth, single-bit and whole-vector operations, each bit of a bit vector has the value a plain boolean array would have; counting, all-set, any-set, equality and ordering agree with that array, and the bits beyond the size stay zero. No operation touches memory outside the vector.',
 ['inputs','histories'],'all sizes (word, block and non-block multiples) and operation sequences','The test uses a few fixed sizes and patterns.',['src/bit_vector.cpp',H+'bit_vector.h'],
 [('512-bit block operations and padding mask','src/bit_vector.cpp')],observe=['is_set','population_count','are_all_set','is_any_set','==','<','resize','make_large_enough_for'])
p('C22','Id mapping is an order-preserving bijection onto dense local ids',
 'For every bit set, mapping a marked global id to its local id yields the number of marked ids before it, unmarked or out-of-range ids yield the given invalid value, mapping back inverts this for every local id, and the counts match.',
 ['inputs'],'all bit sets of all sizes and densities','The test samples fixed/random patterns.',['src/id_mapper.cpp','src/bit_select.cpp',H+'id_mapper.h'],
 [('rank index per 512 bits','src/id_mapper.cpp'),('select by exponential search','src/bit_select.cpp')],observe=['to_local','to_global','local_id_count','is_global_id_mapped'])
p('C23','Strongly connected components are exactly mutual reachability',
 'For every directed graph, two nodes get the same component id if and only if each reaches the other, component ids are dense and in reverse topological order of the components, and the largest-component function marks exactly one component of maximum size.',
 ['inputs'],'all directed graphs','The test checks a few small fixed graphs.',['src/strongly_connected_component.cpp'],
 [('iterative low-link depth-first search','src/strongly_connected_component.cpp')],observe=['compute_strongly_connected_components','compute_largest_strongly_connected_component'])
p('C24','Flow-based cuts are minimum cuts and separators separate',
 'Running the blocking flow to completion yields a flow value equal to the minimum number of arcs separating the given source and target sets, and each cut it reports puts all sources on one side and all targets on the other and is crossed by exactly that many arcs; the separator derived from a cut leaves no arc between the two remaining sides.',
 ['inputs'],'all graphs, source and target sets','Tests use one or two fixed graphs.',['src/nested_dissection.cpp',H+'nested_dissection.h'],
 [('blocking flow augmentation','src/nested_dissection.cpp:BlockingFlow'),('piercing for balance','src/nested_dissection.cpp:get_balanced_cut')],observe=['get_current_flow_intensity','get_source_cut','get_target_cut','get_balanced_cut','derive_separator_from_cut','pick_smaller_side'])
p('C25','Nested dissection yields a permutation and a valid separator tree',
 'For every graph and every separator function, the nested dissection order is a permutation of the nodes, the decomposition tree partitions it into separators, and no arc connects nodes of different subtrees except through the separators above them; graph fragments and their connected components are symmetric, consistent and lose no node or arc.',
 ['inputs','configurations'],'all graphs, coordinates and separator choices','Tests use a few fixed graphs.',['src/nested_dissection.cpp',H+'nested_dissection.h'],
 [('recursive separator decomposition','src/nested_dissection.cpp:compute_separator_decomposition'),('component extraction','src/nested_dissection.cpp:decompose_graph_fragment_into_connected_components')],observe=['compute_nested_node_dissection_order*','compute_separator_decomposition','make_graph_fragment'])
p('C26','Graph helpers find arcs, convert paths and sort arcs correctly',
 'Arc lookup returns an arc between the two nodes if and only if one exists; converting a node path to an arc path and an arc path to a node path yields the same walk; the two-key arc sort permutations order arcs first by the first and then by the second key and are consistent with their inverse and in-place variants.',
 ['inputs'],'all graphs, node pairs, paths and arc lists','Only sort_permutation variants are sampled in test_basic_features, which does not run.',['src/graph_util.cpp',H+'graph_util.h'],
 [('graph utilities','src/graph_util.cpp')],observe=['find_arc*','convert_*_path_*','compute_*sort_permutation_first_by_*'])
p('C27','Geographic lookups agree with a linear scan',
 'For every point set, the nearest-neighbour lookup within a radius returns a point whose distance is minimal among all points within the radius, or the invalid id if there is none, and the radius lookup returns exactly the points within the radius, each once, with their distances; distances are great-circle distances in metres, and all of this holds up to the rounding of single-precision distances.',
 ['inputs'],'all point sets, query positions and radii','The test samples random points with one seed.',['src/geo_position_to_node.cpp',H+'geo_position_to_node.h',H+'geo_dist.h'],
 [('vantage point tree','src/geo_position_to_node.cpp')],observe=['find_nearest_neighbor_within_radius','find_all_nodes_within_radius'])
p('C28','Protobuf decoding is exact and never reads past its input',
 'For every byte string, decoding a variable-length integer either consumes exactly its encoding and returns its 64-bit value or throws, and decoding a message reports exactly its fields in order with their ids, types and contents, or throws on truncated or malformed input; it never reads outside the given range.',
 ['inputs'],'all byte strings','The test decodes a handful of fixed strings.',['src/protobuf.cpp','src/protobuf.h'],
 [('varint decoding','src/protobuf.cpp'),('field loop','src/protobuf.h')],observe=['decode_varint_as_uint64_and_advance_first_parameter','zigzag_convert_uint64_to_int64','decode_protobuf_message_with_callbacks'])
p('C29','Tag maps return exactly the tags they were built from',
 'For every list of key/value strings, looking up a key in the tag map returns the value of its first occurrence and looking up any other string returns nothing; iteration yields all pairs, and rebuilding or clearing leaves no tag of the previous content behind.',
 ['inputs','histories'],'all tag lists, lookup strings and rebuild sequences','The test uses one fixed list.',[H+'tag_map.h'],
 [('hash index over first, middle, last character',H+'tag_map.h')],observe=['operator[]','begin/end','size','clear','build'])
p('C30','OSM tag interpretation yields the documented access, direction and speed',
 'For every tag set the OSM profile functions terminate without touching memory outside the strings: ways opened, closed or one-way by their tags are classified accordingly, speeds are never zero and follow the smallest parsable speed limit in its unit (falling back to the road class), and turn restriction relations produce exactly one restriction per from/to pair with the stated kind, direction and via node or are ignored if malformed.',
 ['inputs'],'all tag values and relation member lists','No runnable test covers the profiles.',['src/osm_profile.cpp',H+'osm_profile.h'],
 [('speed parsing','src/osm_profile.cpp:get_osm_way_speed'),('restriction decoding','src/osm_profile.cpp:decode_osm_car_turn_restrictions')],observe=['is_osm_way_used_by_*','get_osm_*_direction_category','get_osm_way_speed','decode_osm_car_turn_restrictions'])
p('C31','The asynchronous reader delivers the byte stream unchanged',
 'For every byte source, block size, chunking of the source and sequence of read sizes, and every interleaving of reader and worker, the reader returns the bytes of the source in order, a returned block stays intact until the next read, the end of the stream is reported once too few bytes remain, an exception of the source reaches the caller, and no call blocks forever.',
 ['schedules','inputs','fault_sequences'],'all schedules, chunk sizes, read sizes and failure points','The test runs one schedule of a few patterns.',['src/buffered_asynchronous_reader.cpp','src/buffered_asynchronous_reader.h'],
 [('ring buffer with mirrored block','src/buffered_asynchronous_reader.cpp'),('condition variable handshake','src/buffered_asynchronous_reader.cpp')],observe=['read','read_or_throw'])
p('C32','OSM PBF decoding reports exactly the encoded objects',
 'For every well-formed PBF block, the reader calls back each node, way and relation once with its id, position, node list, members and tags as encoded; malformed input (string or member references out of range, unequal array lengths, missing ids, truncated blocks) raises an exception and never causes an out-of-bounds access.',
 ['inputs','fault_sequences'],'all PBF byte streams','No runnable test decodes PBF data.',['src/osm_decoder.cpp',H+'osm_decoder.h'],
 [('primitive block decoding','src/osm_decoder.cpp:internal_read_osm_pbf'),('blob decoding','src/osm_decoder.cpp:OsmPBFDecompressor')],observe=['unordered_read_osm_pbf','ordered_read_osm_pbf'])
p('C33','OSM routing graphs contain exactly the arcs, geometry and turns of the ways',
 'The routing graph extracted from OSM data has one arc per open direction between consecutive routing nodes of each used way, with the length, way id and intermediate geometry of that stretch, arcs sorted by tail then head, and forbidden turns that are exactly those implied by the restrictions, sorted and without duplicates. Travel times of the simple profiles follow length and speed without overflow.',
 ['inputs'],'all OSM inputs','No runnable test builds a graph from OSM data.',['src/osm_graph_builder.cpp','src/osm_simple.cpp',H+'osm_graph_builder.h'],
 [('arc creation between routing nodes','src/osm_graph_builder.cpp'),('turn restriction resolution','src/osm_graph_builder.cpp')],observe=['load_osm_id_mapping_from_pbf','load_osm_routing_graph_from_pbf','simple_load_osm_*'])
p('C34','Vectors written to a stream or file are read back unchanged',
 'Saving a vector of plain values, of strings (without NUL characters) or a bit vector and loading it again returns an equal vector for every length (also zero) and content, and a file whose size does not fit the element type is rejected.',
 ['inputs','fault_sequences'],'all vectors, and all file lengths','No test that runs saves or loads vectors.',['src/vector_io.cpp',H+'vector_io.h'],
 [('save/load templates',H+'vector_io.h')],observe=['save_vector','load_vector','save_bit_vector','load_bit_vector','write_vector/read_vector'])
p('C35','Hierarchy and query objects survive copies and moves',
 'Copied or moved graphs, hierarchies, metrics, queries, queues and id sets answer exactly like the original, independently of what happens to the original afterwards.',
 ['histories'],'all sequences of copies, moves, destruction of originals and later use','No runnable test copies these objects.',[CHH,CCHH,CCH],
 [('value semantics of the public classes',CHH)],observe=['get_distance after copy/move'])
p('C36','Timestamp flags behave like a set that is cleared at once',
 'For every sequence of set, reset of one flag, reset of all flags and copies, a flag is set if and only if it was set after the last operation that reset it, no matter how many times all flags were reset before (in particular when the internal counter wraps around).',
 ['histories'],'all histories of operations, including more than 65536 resets','No test resets flags more than a few times.',[H+'timestamp_flag.h'],
 [('counter that wraps around',H+'timestamp_flag.h:reset_all')],observe=['is_set','set','reset_one','reset_all'])
p('C37','File data sources deliver exactly the bytes of the file',
 'For every file, sequence of opens, reads, rewinds, moves and closes, and every pattern of short reads, a file data source returns the bytes of the file in order, returns fewer bytes than requested only at the end of the file, reports the size of the file, raises an exception for every failing operating system call, and leaves no descriptor open or closed twice.',
 ['inputs','histories','fault_sequences'],'all files, operation sequences, short reads and failing calls','No test opens a file data source.',['src/file_data_source.cpp','src/file_data_source.h'],
 [('read loop','src/file_data_source.cpp:read'),('ownership of the descriptor','src/file_data_source.cpp:operator=')],observe=['open','read','rewind','size','close','as_functional'])
p('C38','Validity checks accept exactly the well-formed graphs and queries',
 'For every input, the graph and query validity checks return normally if and only if the arrays describe what they are documented to describe (matching sizes, monotone index starting at zero, heads in range, at least one interpolation point per arc, departure times within the period and sorted per arc, query nodes and times in range), and never read outside the arrays, also if these are empty.',
 ['inputs'],'all contents of the arrays','No test calls the checks.',['src/verify.cpp','src/verify.h'],
 [('validity checks','src/verify.cpp')],observe=['check_if_graph_is_valid','check_if_td_graph_is_valid','check_if_arc_ipp_are_valid','check_if_sst_queries_are_valid'])
p('C39','Conversion programs keep the data or reject it',
 'Converting a DIMACS graph or coordinate file, exporting a graph to DIMACS, encoding and decoding vectors as text and randomly permuting the nodes of a graph produce files that describe exactly the same graph, coordinates or vector (the permutation program up to some permutation of the nodes); input that is malformed (missing or repeated header, wrong counts, ids out of range, repeated or missing nodes, invalid graphs) makes the program report an error instead of writing something else.',
 ['inputs'],'all input files','No test runs the programs.',['src/convert_road_dimacs_graph.cpp','src/convert_road_dimacs_coordinates.cpp','src/export_road_dimacs_graph.cpp','src/encode_vector.cpp','src/decode_vector.cpp','src/randomly_permute_nodes.cpp'],
 [('line parsing','src/convert_road_dimacs_graph.cpp'),('escape sequences','src/encode_vector.cpp')],observe=['files written and exit code of the programs'])
p('C40','Query programs answer every query and generators write what they announce',
 'The programs that run Dijkstra or a contraction hierarchy over files of queries write, for every graph and list of queries (also empty lists and graphs without arcs), the shortest distances, and report an error for queries, weights or graphs that do not fit together; the programs that generate test queries, node lists, constant vectors, source times, rank queries, geographic weights and dissection orders write vectors of the announced length with all entries in range (rank queries: with the distances and Dijkstra ranks of their targets).',
 ['inputs'],'all graphs, query lists and seeds','No test runs the programs.',['src/run_dijkstra.cpp','src/run_contraction_hierarchy_query.cpp','src/compute_contraction_hierarchy.cpp','src/generate_test_queries.cpp','src/generate_random_node_list.cpp','src/generate_constant_vector.cpp','src/generate_random_source_times.cpp','src/generate_dijkstra_rank_test_queries.cpp','src/compute_geographic_distance_weights.cpp','src/compute_nested_dissection_order.cpp'],
 [('query loop','src/run_dijkstra.cpp'),('rank queries','src/generate_dijkstra_rank_test_queries.cpp')],observe=['files written and exit code of the programs'])
p('C41','The hierarchy checker accepts built hierarchies and rejects broken ones',
 'check_contraction_hierarchy_for_errors returns normally for every hierarchy that the library builds (automatic order, given rank or order, extracted by perfect customization) and throws for every hierarchy whose array sizes do not fit together, whose order and rank are not inverse permutations, whose index arrays do not start at zero or are not monotone, whose arcs lead out of range or not upward, or whose shortcuts refer to arcs that do not exist or are not below them or have a weight that is not the sum of their parts; it never accesses memory outside the arrays.',
 ['inputs'],'all contents of the arrays of a hierarchy','No test passes a broken hierarchy to the check.',[CH,CHH],
 [('consistency check','src/contraction_hierarchy.cpp:check_contraction_hierarchy_for_errors')],observe=['check_contraction_hierarchy_for_errors'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
