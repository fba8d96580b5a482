#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit and validate)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Search results are well formed, exact in distance, sorted and unique",
 "For any index, query and max_search >= 1, a search terminates and returns at most min(num_neighbors, max_search) hits, every id is below the index length and occurs once, distances ascend, and each reported distance is exactly the distance the element container computes between that element and the query. A query on an index without elements returns nothing.",
 ["inputs","configurations"],"every graph (also disconnected, with cycles, or multi-layer), every assignment of distances including ties, every max_search >= 1 and num_neighbors",
 "Tests search a few random indexes; the result heap, visited set and stop condition interact with ties and graph shape in ways random floats (no ties, connected graphs) never reach.",
 ["src/index/mod.rs","src/max_size_heap.rs"],[("best-first search","src/index/mod.rs:search_for_neighbors"),("bounded result heap","src/max_size_heap.rs"),("layer descent","src/index/mod.rs:find_entrypoint")],
 observe=["Granne::search"])
p("C02","Search explores everything it must: exact when wide, locally optimal otherwise",
 "When max_search is at least the number of elements, the result is exactly the num_neighbors nearest among all elements reachable over bottom-layer neighbour links from the point the layer descent ends in. For smaller max_search, the full list of hits (num_neighbors >= max_search) either holds everything reachable, or is full and no neighbour of a returned hit is strictly closer to the query than the worst hit without being a hit itself.",
 ["inputs","configurations"],"every graph over the bounded number of nodes, every distance assignment including ties, every max_search",
 "Recall tests only assert a statistical recall on random vectors; a search that stops one step early or drops a candidate on a tie still passes them.",
 ["src/index/mod.rs","src/max_size_heap.rs"],[("best-first search stop condition","src/index/mod.rs:search_for_neighbors"),("bounded heap keeps the smallest","src/max_size_heap.rs:push")],
 observe=["Granne::search","Index::get_neighbors"])
p("C03","Every built index is a well formed layered graph",
 "After building, the last layer holds exactly the elements asked for and layers never shrink; every neighbour list in every layer names only other elements of that layer, each at most once and never the element itself, at most num_neighbors of them (at most max(1, num_neighbors/2) in layers that are not the final one). This holds for any elements, any distances (ties, duplicates and all-zero elements included) and any configuration with num_neighbors >= 1, max_search >= 1, layer_multiplier > 1.",
 ["inputs","configurations"],"every distance matrix over a bounded number of elements, every configuration in a bounded set of num_neighbors/max_search/layer_multiplier/reinsert settings",
 "Tests build from random vectors and check only aggregate counts or recall; duplicates, ties and full neighbour lists in combination are not sampled.",
 ["src/index/mod.rs"],[("element insertion","src/index/mod.rs:index_element"),("link insertion","src/index/mod.rs:connect_nodes"),("list limiting","src/index/mod.rs:add_and_limit_neighbors"),("layer planning","src/index/mod.rs:index_elements_in_last_layer")],
 observe=["Index::num_layers","Index::layer_len","Index::get_neighbors"])
p("C04","Building in steps gives a complete index and never touches finished layers",
 "Building in any sequence of partial steps (with the expected number of elements configured, elements pushed in between, or the index saved and reloaded in between) indexes exactly the requested number of elements after each step, ends with the same layers and layer sizes as one build of everything, and leaves the neighbour lists of every completed upper layer as they were. Building again when everything planned is indexed changes nothing.",
 ["histories","inputs"],"every split of the build into bounded many steps, every distance matrix in the bound, with and without a save/load between steps",
 "Tests build in steps once or twice with fixed sizes and compare only lengths or recall.",
 ["src/index/mod.rs","src/index/io.rs"],[("build_partial","src/index/mod.rs:build_partial"),("resume from bytes","src/index/mod.rs:GranneBuilder::from_bytes")],
 observe=["Builder::build_partial","GranneBuilder::from_bytes","Index::*"])
p("C05","Small indexes are exact: every element is connected and found",
 "If the number of elements is at most half of num_neighbors and at most half of max_search, the layer multiplier is at least 2, and every element has zero distance to itself, then the built index links every element to every other one in the final layer, and a search with max_search at least the number of elements returns exactly the true nearest neighbours. This holds whatever the distances between different elements are, duplicates included.",
 ["inputs","configurations"],"every distance matrix over a bounded number of elements, all layerings",
 "Recall tests use thousands of random elements and allow misses; a single lost link in a small index is invisible to them.",
 ["src/index/mod.rs"],[("candidate search during insertion","src/index/mod.rs:index_element"),("bidirectional linking","src/index/mod.rs:connect_nodes")],
 observe=["Granne::search","Index::get_neighbors"])
p("C06","Neighbour selection keeps the closest and a diverse, bounded rest",
 "When an element has more candidates than its neighbour limit, the kept neighbours are a subset of the candidates in ascending distance, at most the limit, always with a closest candidate first; a kept neighbour is never closer to an earlier kept one than to the element itself, and a candidate is dropped only if it is closer to an already kept neighbour than to the element or the limit was already reached by closer candidates. With at most limit candidates all are kept.",
 ["inputs"],"every candidate list up to the bound, all distances including ties, every limit",
 "One unit test checks a hand-made geometry; tie handling and the interaction of limit and diversity are not covered.",
 ["src/index/mod.rs"],[("heuristic","src/index/mod.rs:select_neighbors")],
 observe=["Index::get_neighbors after adding an element to an index"])
p("C07","A saved index loads back as the same index, from any position in memory",
 "Writing an index (built, loaded or reordered) and loading it gives the same number of layers, layer lengths and neighbour sets, and identical search results where distances to the query are distinct; writing the loaded index again produces the same bytes, and the header of the file states the numbers of elements, layers and elements per layer. Loading works from a byte slice at any alignment and from a stream position other than zero, writing leaves bytes before its start untouched, and none of it reads misaligned or out-of-bounds memory.",
 ["inputs","configurations"],"every graph over bounded nodes/layers, every buffer alignment 0..15, start offsets",
 "Tests write to fresh aligned buffers; layer sizes of real graphs decide the alignment of later layers, so misaligned loads appear only for some inputs.",
 ["src/index/io.rs","src/slice_vector/set_vector.rs","src/slice_vector/offsets.rs","src/io.rs"],[("format writer","src/index/io.rs:write_index"),("loader","src/index/io.rs:load_layers"),("byte reinterpretation","src/io.rs:load_bytes_as")],
 observe=["Index::write_index","Granne::from_bytes","GranneBuilder::from_bytes"])
p("C08","Compressed neighbour lists decode to exactly what was stored",
 "A neighbour list of up to 254 32-bit ids put into a compressed layer is read back as exactly the same ids in ascending order with multiplicity, whatever the ids and gaps are, and whatever other lists surround it.",
 ["inputs"],"every list of symbolic 32-bit ids up to the stated length, plus longer lists with symbolic positions/gaps",
 "Tests use a few literal lists and consecutive ranges; the encoder has data-dependent width selection, a padding rule for short lists and an incompressible fallback that must be told apart by length alone.",
 ["src/slice_vector/set_vector.rs"],[("delta + variable byte encoding","src/slice_vector/set_vector.rs:set_encode"),("decoder","src/slice_vector/set_vector.rs:decode_into")],
 observe=["Index::get_neighbors of a loaded index","Granne::from_bytes"])
p("C09","Every neighbour list is found at its own place, whatever the lists around it",
 "However many nodes a layer has and however long their neighbour lists are (up to 254 entries, any mixture of empty, short and long ones), a saved and loaded layer returns for every node exactly its own list, and the number of nodes is right. The same holds when the lists were rewritten by reordering.",
 ["inputs","configurations"],"any number of nodes up to the bound (on both sides of every border of the packed position table), any lengths of the lists around these borders, total sizes beyond 16-bit positions",
 "Tests use small regular lists; the packed table of positions has borders, a sentinel value and relative entries that coincide only for specific counts and lengths.",
 ["src/slice_vector/offsets.rs","src/slice_vector/set_vector.rs"],[("chunked delta storage","src/slice_vector/offsets.rs:Chunk::push"),("lookup","src/slice_vector/offsets.rs:get_consecutive")],
 observe=["Index::write_index","Granne::from_bytes","Index::get_neighbors","Granne::reorder_by_keys"])
p("C10","Vector collections store, combine, save and load vectors bit for bit",
 "A collection of dense vectors (f32 or i8) returns after any sequence of push, extend and construction from a flat list exactly the scalars put in, bit for bit, with the right length and dimension; vectors of a different dimension are refused. Writing it emits exactly the number of bytes it reports and loading those bytes gives back the same collection, which can be extended further without affecting the source.",
 ["inputs","histories"],"every bit pattern of the scalars, every short history of operations, dims and lengths in the bound",
 "Tests use random normal floats and one history each.",
 ["src/elements/dense_vector.rs","src/slice_vector/mod.rs","src/io.rs"],[("fixed width storage","src/slice_vector/mod.rs:FixedWidthSliceVector"),("byte writer","src/io.rs:write_as_bytes")],
 observe=["angular::Vectors","angular_int::Vectors"])
p("C11","Sum-embedding elements keep their terms; ids that do not fit are refused",
 "An element pushed as a list of embedding ids reports exactly these ids in order after pushes, saving and loading; an id of 2^24 or more is refused by a panic, never stored as a different id. The (non-normalised) vector of an element is the component-wise sum of its embeddings in order, an element without terms has the zero vector, and writing reports exactly the bytes emitted.",
 ["inputs","histories"],"every id value (64 bit), every embedding bit pattern for the sums, any split of terms over elements",
 "Tests use small ids only; the 3-byte and 5-byte integer packing and the offset rebasing are exercised at a handful of values.",
 ["src/elements/embeddings/mod.rs","src/slice_vector/mod.rs","src/odd_byte_int.rs"],[("3/5-byte integers","src/odd_byte_int.rs"),("variable width storage","src/slice_vector/mod.rs:VariableWidthSliceVector"),("embedding sum","src/math.rs:sum_into_f32")],
 observe=["SumEmbeddings::{push,get_terms,get_embedding,create_embedding,from_bytes}","Writeable::write"])
p("C12","Reordering is a layer-preserving renaming of the same index",
 "Reordering any fully indexed index (any number of layers, also none or one) returns a permutation that maps every layer onto itself; afterwards element i is the element that was at permutation[i], the neighbours of i are the renamed neighbours of permutation[i] in every layer, and layer sizes are unchanged. Where distances to the query are distinct and the layer descent ends at the same element, search results are the renamed original results.",
 ["inputs","configurations"],"every graph/layering in the bound and every distance assignment",
 "The two tests reorder one random index each and compare search results on five queries.",
 ["src/index/reorder.rs","src/elements/embeddings/mod.rs","src/slice_vector/mod.rs"],[("order computation","src/index/reorder.rs:compute_order"),("graph renaming","src/index/reorder.rs:reorder_layer")],
 observe=["Granne::reorder","Index::get_neighbors","Granne::get_element"])
p("C13","Reordering by keys sorts each layer's own elements and renames consistently",
 "Reordering by keys returns a layer-preserving permutation such that within each layer's own range the keys are ascending, and the graph and elements are renamed by exactly that permutation. The number of keys must equal the number of elements, otherwise it panics and changes nothing.",
 ["inputs"],"every key assignment (ties included), every graph and layering in the bound",
 "One random test; ties between keys and layer boundaries are incidental there.",
 ["src/index/reorder.rs"],[("layer-wise sort","src/index/reorder.rs:reorder_by_keys"),("graph renaming","src/index/reorder.rs:reorder_layer")],
 observe=["Granne::reorder_by_keys"])
p("C14","Permuting a collection puts element p[i] at position i for every permutation",
 "Permuting vectors or sum-embedding elements by any permutation p makes the element at position i the one that was at p[i], bit for bit, keeps the number of elements, and loses or duplicates nothing. A permutation of the wrong length is refused.",
 ["inputs"],"every permutation up to the bound (all cycle structures), symbolic contents",
 "Tests shuffle one random permutation; the in-place cycle walk is sensitive to cycle structure.",
 ["src/slice_vector/mod.rs","src/elements/embeddings/mod.rs"],[("in-place cycle walk","src/slice_vector/mod.rs:FixedWidthSliceVector::permute"),("chunked copy","src/elements/embeddings/mod.rs:Permutable::permute")],
 observe=["Permutable::permute"])
p("C15","A save reports success only if every byte was accepted",
 "Writing an index or a collection returns Ok only if all its bytes were accepted by the destination: whenever any write, seek or flush on the destination fails, or accepts nothing, the save returns an error, wherever the failure happens. Short writes and interruptions are retried without losing, duplicating or reordering bytes. The functions that save to files themselves (index and elements of the concurrent builder, shards of parsed elements, computed embeddings) report success only if the files are whole; a panic counts as an error.",
 ["fault_sequences","inputs"],"a fault (error, zero-length write, short write of any length, interruption) at any operation on the destination",
 "Tests write to files that never fail.",
 ["src/index/io.rs","src/index/rw/mod.rs","src/io.rs","src/slice_vector/mod.rs","src/slice_vector/set_vector.rs","src/slice_vector/offsets.rs"],[("buffered writing","src/index/io.rs:write_index"),("write_all","src/io.rs:write_as_bytes"),("index and elements together","src/index/rw/mod.rs:write")],
 observe=["Index::write_index","Writeable::write","RwGranneBuilder::write"])
p("C16","An index file cut off mid-save is rejected, never read as a different index",
 "If saving into an empty destination stops at any point (a crash anywhere in its writes, or a failing operation), what is then in the destination either loads as exactly the index that was being saved or is rejected when loaded; it never loads as an index with different layers, lengths or neighbours.",
 ["crash_points","inputs"],"a crash after any prefix of the operations on a fresh destination (including in the middle of one write), for every graph in the bound",
 "Tests never interrupt a save.",
 ["src/index/io.rs","src/slice_vector/set_vector.rs"],[("metadata is written last","src/index/io.rs:write_index"),("header check","src/index/io.rs:read_layer_sizes")],
 observe=["Index::write_index","Granne::from_bytes"])
p("C17","Angular distances are never negative or NaN, are symmetric, and rank by angle",
 "The angular distance of two vectors is 1 minus their dot product, but never below 0 and never NaN for finite components within the stated magnitudes; it does not depend on the order of its arguments, a zero vector is at distance 1 from everything, and a collection reports the same distances singly, in batches and to a query. Creating a vector scales it to unit length and keeps signs and the order of components; a zero vector stays zero.",
 ["inputs"],"all component values within the stated magnitude bounds, low dimensions plus the blocked loop boundary",
 "Tests compare against a reference at random points with a tolerance.",
 ["src/elements/angular.rs","src/elements/dense_vector.rs","src/math.rs"],[("dot product","src/math.rs:dot_product_f32"),("normalisation","src/math.rs:normalize_f32"),("clamping","src/elements/angular.rs:dist")],
 observe=["Dist::dist","ElementContainer::{dist,dists,dist_to_element}"])
p("C18","Quantised vectors stay within range and their distances are sane",
 "Quantising a vector of finite components keeps every component within -127..127 and within 1 of 127 times its ratio to the largest magnitude, keeps signs and the weak order of components, and turns a zero vector into the zero vector without failing. Distances between quantised vectors are 1 minus the cosine (up to float rounding), never negative or NaN, symmetric, 1 for zero vectors, and the same singly, in batches and to a query.",
 ["inputs"],"all component values in the stated magnitude bounds, all i8 pairs",
 "Tests check random vectors against a tolerance; zero vectors and extreme ratios are not sampled.",
 ["src/elements/angular_int.rs","src/math.rs"],[("quantize","src/elements/angular_int.rs:quantize"),("integer dot product","src/math.rs:dot_product_and_squared_norms_i8")],
 observe=["angular_int::Vector::from","Dist::dist"])
p("C19","The concurrent builder numbers, limits, searches and saves like a plain index",
 "Used from one thread, the concurrent builder gives inserted elements consecutive ids in order, never exceeds its capacity (surplus elements are refused, not half inserted), splits batches over layer boundaries without changing that and returns any element by its id; a search returns well formed hits, is never empty once there is an element, and finds everything in a small builder. Its saved index and elements load back with as many elements as were inserted, well formed neighbour lists, and the layer sizes of a plain index that expects as many elements as the capacity.",
 ["histories","inputs","configurations"],"every bounded sequence of insert / insert_batch / search / save with batch sizes and capacities in the bound, all distances",
 "Tests insert one fixed sequence; searching before a second layer exists, batches that cross layers, and saving are untested (the save test is commented out).",
 ["src/index/rw/mod.rs","src/index/rw/rw_lock_slice_vector.rs"],[("insert_batch","src/index/rw/mod.rs:insert_batch"),("layer growth","src/index/rw/mod.rs:insert_batch"),("save","src/index/rw/mod.rs:write")],
 observe=["RwGranneBuilder::*"])
p("C20","Concurrent insertion, search and saving never corrupt, panic or deadlock",
 "Whatever the interleaving of threads inserting into, searching and saving a concurrent builder, every call returns, none panics, every accepted element gets its own id, and afterwards every neighbour list is duplicate free, self free and within the current elements. A save taken meanwhile holds a consistent pair: as many indexed elements as saved elements, with all links inside; and when num_neighbors and max_search are large compared with the number of elements, none of them is saved half inserted and every accepted one is found afterwards.",
 ["schedules"],"all interleavings of the bounded thread programs at synchronisation operations, up to the stated number of preemptions",
 "The one concurrent test runs one schedule per execution; a race between two insertions or an insertion and a save needs a specific interleaving.",
 ["src/index/rw/mod.rs","src/index/mod.rs"],[("per-node locks","src/index/mod.rs:initialize_node/connect_nodes"),("write_lock","src/index/rw/mod.rs:write/insert_batch")],
 observe=["RwGranneBuilder::{insert,insert_batch,search,write}"])
p("C21","Sharding elements loses, repeats and reorders nothing",
 "Splitting elements into any number of shards writes exactly that many shards whose concatenation is the original sequence of elements, also when there are fewer elements than shards or none. Any contiguous range of elements written on its own loads back as exactly these elements, reports the bytes it wrote and can be extended; appending collections concatenates them.",
 ["inputs","configurations"],"every number of elements and shards in the bound, symbolic term lists",
 "A single test shards one fixed input; uneven splits are not covered.",
 ["src/elements/embeddings/parsing.rs","src/slice_vector/mod.rs"],[("shard bounds","src/elements/embeddings/parsing.rs:parse_elements_and_save_shards_to_disk"),("range writer","src/slice_vector/mod.rs:write_range"),("append","src/slice_vector/mod.rs:extend_from_slice_vector")],
 observe=["embeddings::parsing::*","SumEmbeddings::from_bytes"])
p("C22","Loading and querying a damaged layer never touches foreign memory",
 "Whatever bytes follow a readable index header, loading the index and asking for lengths, neighbours or searches either answers or panics; it never reads outside the supplied buffer, never performs a misaligned access and never runs forever.",
 ["inputs"],"arbitrary bytes in the layer data (sizes within the bound)",
 "Tests only load what the library itself wrote.",
 ["src/index/io.rs","src/slice_vector/offsets.rs","src/slice_vector/set_vector.rs","src/io.rs"],[("slicing with bounds checks","src/slice_vector/offsets.rs:load_mmap/get"),("decoder","src/slice_vector/set_vector.rs:decode_into")],
 observe=["Granne::from_bytes","Index::*"])
p("C23","Layer sizes grow by the multiplier and end at the number of elements",
 "For any number of elements and any layer multiplier above 1, the layer sizes start between 1 and about the multiplier, never decrease, grow by at most about the multiplier from one layer to the next, never exceed the number of elements, and reach exactly that number after about as many layers as the multiplier needs.",
 ["configurations"],"all element counts up to 2^32-2 and all multipliers > 1",
 "Tests check a table of sizes.",
 ["src/index/mod.rs"],[("layer size formula","src/index/mod.rs:compute_num_elements_in_layer")],observe=["Index::layer_len"])
p("C24","Parsing text elements yields one element per line with its known words in order",
 "Parsing a file of JSON strings yields exactly one element per line, in order, containing the ids of the known words after the line's last colon in the order they occur, repeated if they are, and nothing for unknown words; a directory is parsed in file-name order, and a compressed (.gz) file, also one of several members, like the text in it. Computing embeddings to disk writes exactly one quantised vector per element in element order.",
 ["inputs"],"every text over a small alphabet up to a bounded length",
 "Tests parse generated words that are all known.",
 ["src/elements/embeddings/parsing.rs"],[("line parser","src/elements/embeddings/parsing.rs:parse_file"),("chunked output","src/elements/embeddings/parsing.rs:compute_embeddings_and_save_to_disk")],
 observe=["embeddings::parsing::*"])
p("C25","Keys for reordering rank elements by their most significant words",
 "The keys computed for reordering sum-embedding elements compare like the lists of the ids of each element's up to eight terms of largest embedding norm, largest norm first (padded with zeros), one key per element in element order. Terms count as often as they occur; nothing is said about terms of equal norm.",
 ["inputs","configurations"],"every element of a bounded number of terms over words whose norms differ, every value of the embeddings in the bound",
 "No test looks at the keys: the tests only use them to reorder, which works with any keys.",
 ["src/elements/embeddings/reorder.rs"],[("key of an element","src/elements/embeddings/reorder.rs:compute_keys_for_reordering")],
 observe=["embeddings::compute_keys_for_reordering"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
for x in P:
    if S: jsonschema.validate(x,S)
    assert len(x["title"])<=80,x["id"]
print(len(P))
