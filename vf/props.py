"""What is explored for each property: harness jobs, bounds, the meaning of each assertion."""

COMMON_ASSUMPTIONS = [
    "the code analysed is the LLVM IR rustc emits from /repo's current sources and the locked dependencies (opt-level 1, fat LTO, no auto-vectorisation); LLVM's code generation after that is trusted",
    "the interpreter's semantics of that IR, its model of libc/syscalls/unwinding, and Z3 are trusted; sampled paths are re-run natively on every run and must make the same observations",
    "rayon runs on the calling thread (a pool of one thread) unless the harness is about schedules; sequentially consistent memory",
]


def J(entry, *params, progress=False, **kw):
    if progress:
        params = params + (0,) * (15 - len(params)) + (1,)
    return dict(entry=entry, params=list(params), **kw)


PROPS = {}

# ------------------------------------------------------------------ C01
SEARCH_CHECKS = {
    1: "the index has the number of elements written", 2: "nothing is found in an index without elements", 3: "at most min(num_neighbors, max_search) hits",
    4: "every hit is an element", 5: "the reported distance is the container's distance", 6: "no element is reported twice", 7: "distances ascend",
    8: "there is a hit whenever there is an element", 9: "over a bottom layer without links exactly the entry point is found", 10: "the entry point lies in the layer above",
    11: "the descent never gets further away than its start", 12: "the descent ends where no neighbour is closer", 13: "only reachable elements are found",
    14: "a wide search finds as many as are reachable (or asked for)", 15: "a wide search leaves out nothing closer than its worst hit",
    16: "a result shorter than max_search holds everything reachable", 17: "no neighbour of a hit is strictly closer than the worst hit without being a hit"}
PROPS["C01"] = dict(
    quick=[
        J("h_search", 4, 2, 2, 3, 0, 0, what="one layer of 4, two arbitrary links each, max_search 2, 3 neighbours asked for"),
        J("h_search", 4, 2, 4, 2, 0, 0, what="one layer of 4, wide search"),
        J("h_search", 3, 2, 1, 2, 0, 0, 1, what="one layer of 3, 0 to 2 links each, max_search 1"),
        J("h_search", 24, 1, 2, 2, 0, 0, what="two layers"),
        J("h_search", 123, 1, 3, 3, 0, 0, what="three layers"),
        J("h_search", 3, 2, 3, 3, 1, 0, what="the same over fixed-width lists (an index being built)"),
        J("h_search", 0, 2, 1, 1, 0, 0, what="no elements"),
        J("h_search", 3, 2, 2, 0, 0, 0, what="no neighbours asked for"),
        J("h_search", 3, 1, 2, 2, 0, 0, flavour="rel", what="without debug assertions"),
        J("h_search", 3, 2, 1 << 62, 3, 0, 0, what="max_search 2^62"),
        J("h_search", 3, 2, 1 << 40, 3, 1, 0, what="max_search 2^40, fixed width"),
        J("h_search_big", 40, 1, 3, 5, 5, 0, 0, 16, 2, 1, 0, what="40 elements, the query at any place, two arbitrary links"),
        J("h_search_big", 60, 3, 4, 12, 20, 1, 0, 32, 2, 3, 0, what="60 elements in three layers, fixed width"),
        J("h_search_big", 400, 2, 8, 40, 30, 0, 0, 16, 0, 7, 0, what="400 elements in two layers, max_search 40"),
        J("h_search_big", 3000, 2, 6, 1500, 1200, 0, 0, 8, 0, 3, 0, what="3000 elements in two layers, max_search 1500"),
        J("h_search_big", 70000, 2, 3, 5, 5, 0, 0, 8, 1, 1, 1, what="70000 elements, ids of up to 17 bits"),
    ],
    thorough=[
        J("h_search", 5, 2, 3, 3, 0, 0, what="one layer of 5"),
        J("h_search", 14, 2, 2, 2, 0, 0, what="two layers of 1 and 4"),
        J("h_search", 24, 2, 2, 3, 0, 0, what="two layers of 2 and 4"),
        J("h_search", 5, 2, 5, 3, 1, 0, what="one layer of 5, fixed width"),
        J("h_search", 7, 1, 3, 3, 0, 0, what="one layer of 7, one link each"),
        J("h_search_big", 70000, 3, 4, 30, 30, 1, 0, 16, 2, 2, 1, what="70000 elements in three layers, fixed width"),
    ],
    checks=SEARCH_CHECKS,
    bounds="graphs of up to 4 elements (5 thorough) in 1 to 3 layers, with any neighbour lists of 0 to 2 ids (self links and repeated ids included), every distance to the query in 0..255 (all ties), the listed max_search/num_neighbors values 0..5; compressed and fixed-width lists; graphs of 40, 60, 400, 3000 and 70000 elements that are fixed but for up to two links and the place of the query.",
    outside="other graphs of more elements; distances that are NaN (excluded by the container interface); max_search 0 (panics, a precondition).",
)
# ------------------------------------------------------------------ C02
PROPS["C02"] = dict(
    quick=[
        J("h_search", 4, 2, 2, 2, 0, 1, what="one layer of 4, narrow search"),
        J("h_search", 4, 2, 1, 1, 0, 1, what="max_search 1"),
        J("h_search", 4, 2, 3, 4, 0, 1, what="max_search 3"),
        J("h_search", 3, 2, 3, 2, 0, 1, 1, what="wide search over lists of 0 to 2 ids"),
        J("h_search", 24, 1, 2, 2, 0, 1, what="two layers"),
        J("h_search", 124, 1, 2, 2, 0, 1, what="three layers"),
        J("h_search", 13, 2, 3, 2, 0, 1, what="two layers, wide"),
        J("h_search", 3, 2, 4, 3, 1, 1, what="fixed-width lists"),
        J("h_search_big", 40, 1, 3, 5, 5, 0, 1, 16, 2, 1, 0, what="40 elements, the query at any place, two arbitrary links"),
        J("h_search", 3, 2, (1 << 64) - 1, 3, 0, 1, what="max_search 2^64-1"),
        J("h_search_big", 40, 1, 3, 40, 5, 0, 1, 16, 2, 4, 0, what="40 elements, wide search"),
        J("h_search_big", 60, 3, 4, 12, 12, 1, 1, 16, 2, 3, 0, what="60 elements in three layers, fixed width"),
        J("h_search_big", 400, 2, 8, 40, 40, 0, 1, 16, 0, 7, 0, what="400 elements in two layers, max_search 40"),
        J("h_search_big", 3000, 2, 6, 1500, 1500, 0, 1, 8, 0, 3, 0, what="3000 elements in two layers, max_search 1500"),
        J("h_search_big", 3000, 1, 4, 3000, 10, 1, 1, 4, 1, 5, 0, what="3000 elements, wide search"),
        J("h_search_big", 70000, 2, 3, 5, 5, 0, 1, 8, 1, 1, 1, what="70000 elements, ids of up to 17 bits"),
    ],
    thorough=[
        J("h_search", 14, 2, 5, 3, 0, 1, what="two layers of 1 and 4, wide"),
        J("h_search", 24, 2, 2, 2, 0, 1, what="two layers of 2 and 4"),
        J("h_search", 5, 2, 3, 3, 0, 1, what="one layer of 5"),
        J("h_search", 5, 2, 5, 2, 0, 1, what="one layer of 5, wide"),
        J("h_search", 7, 1, 3, 3, 0, 1, what="one layer of 7, one link each"),
        J("h_search", 4, 3, 2, 2, 0, 1, what="three links each"),
        J("h_search_big", 70000, 3, 4, 30, 30, 1, 1, 16, 1, 2, 1, what="70000 elements in three layers, fixed width"),
    ],
    checks=SEARCH_CHECKS,
    bounds="graphs of up to 4 elements (5 thorough) in 1 to 3 layers with any neighbour lists of 0 to 2 ids (3 thorough), every distance to the query in 0..255, the listed max_search/num_neighbors values; graphs of 40, 60, 400, 3000 and 70000 elements that are fixed but for up to two links and the place of the query.",
    outside="other larger graphs. The point the layer descent ends in is observed as the only hit over the same upper layers with an unlinked bottom layer.",
)
# ------------------------------------------------------------------ C03
PROPS["C03"] = dict(
    quick=[
        J("h_build", 4, 4, 4, 1, 3, 0, what="4 elements, wide, 3 layers"),
        J("h_build", 4, 2, 2, 1, 2, 1, what="4 elements, narrow, 3 layers, zero elements"),
        J("h_build", 4, 1, 1, 0, 2, 1, what="at most one neighbour, max_search 1"),
        J("h_build", 4, 2, 3, 0, 9, 0, what="two layers, no reinsertion"),
        J("h_build", 4, 3, 4, 1, 3, 0, what="4 elements, odd number of neighbours"),
        J("h_build", 20, 6, 6, 1, 3, 1, 2, 3, 1, progress=True, what="20 points, showing progress"),
        J("h_build", 4, 3, 3, 1, 130, 0, what="several large layers (layer multiplier 1.3), odd number of neighbours"),
        J("h_build", 4, 5, 4, 1, 130, 0, what="several large layers, 5 neighbours"),
        J("h_build", 5, 3, 2, 0, 130, 0, what="5 elements, several large layers"),
        J("h_build", 5, 3, 1, 0, 110, 0, what="5 elements, 15 layers"),
        J("h_build", 3, 3, 3, 1, 110, 1, what="3 elements, 8 layers, zero elements"),
        J("h_build", 3, 3, 2, 1, 2, 1, flavour="rel", what="without debug assertions"),
        J("h_build", 20, 6, 6, 1, 3, 1, 2, 3, 1, what="20 points, two of them anywhere in their row, zero elements"),
        J("h_build", 30, 5, 5, 1, 4, 1, 3, 3, 2, what="30 points, three anywhere"),
        J("h_build", 60, 8, 8, 1, 8, 1, 2, 3, 9, what="60 points, two anywhere"),
        J("h_build", 25, 4, 3, 1, 130, 1, 3, 2, 5, what="25 points, 13 layers"),
        J("h_build", 150, 20, 10, 0, 15, 0, 1, 4, 11, what="150 points, default number of neighbours"),
        J("h_build", 20, 6, 6, 1, 3, 1, 2, 3, 1, 4, what="20 points where 4 were expected"),
        J("h_build", 20, 6, 6, 0, 3, 1, 2, 3, 2, 100, what="20 points where 100 were expected"),
        J("h_build", 4, 4, 3, 0, 2, 0, 0, 0, 0, 1, what="4 elements where 1 was expected"),
        J("h_build", 4, 3, 3, 1, 3, 0, 0, 0, 0, 7, what="4 elements where 7 were expected"),
    ],
    thorough=[
        J("h_build", 5, 2, 2, 0, 2, 0, what="5 elements, narrow"),
        J("h_build", 5, 2, 1, 0, 5, 1, what="5 elements, max_search 1"),
        J("h_build", 5, 4, 3, 1, 3, 0, what="5 elements, wide"),
        J("h_build", 6, 1, 1, 0, 3, 0, what="6 elements, one neighbour"),
        J("h_build", 40, 20, 20, 1, 5, 0, 3, 3, 7, what="40 points, three anywhere, 20 neighbours"),
    ],
    checks={1: "the index has as many elements as asked for", 2: "layers never shrink", 3: "no layer exceeds the number of elements", 4: "neighbour limit",
            5: "neighbour ids are inside the layer", 6: "no self links", 7: "no duplicate links"},
    bounds="3 to 5 elements (up to 6 thorough) in up to 15 layers, every symmetric distance table over 0..255 (ties, duplicates, and elements with a distance 1 to themselves), the listed num_neighbors, max_search, reinsertion and layer multipliers; 20, 25, 30, 60 and 150 fixed points of a grid with ties and duplicates (zero elements among them), 1 to 3 of which are at any place of their row.",
    outside="other larger collections; asymmetric distances; parallel insertion (C20 covers schedules of the concurrent builder).",
)
# ------------------------------------------------------------------ C04
PROPS["C04"] = dict(
    quick=[
        J("h_steps", 4, 2, 4, 0, 2, 0, 2, what="4 elements in two steps"),
        J("h_steps", 3, 2, 2, 1, 2, 1, 2, what="3 elements, reinsertion, zero elements"),
        J("h_steps", 4, 3, 3, 0, 130, 0, 2, what="several large layers (layer multiplier 1.3)"),
        J("h_steps", 4, 3, 2, 1, 150, 0, 2, what="several large layers, reinsertion"),
        J("h_steps", 3, 3, 3, 1, 9, 0, 3, what="3 elements in three steps"),
        J("h_steps", 10, 4, 4, 1, 3, 1, 2, 1, 4, 1, what="10 points, one anywhere, two steps"),
        J("h_steps", 14, 5, 5, 0, 4, 0, 2, 1, 3, 3, what="14 points, one anywhere, two steps"),
    ],
    thorough=[
        J("h_steps", 4, 2, 2, 1, 3, 0, 2, what="4 elements, reinsertion"),
        J("h_steps", 4, 2, 4, 0, 2, 0, 3, what="4 elements in three steps"),
        J("h_steps", 5, 1, 1, 0, 2, 0, 2, what="5 elements, one neighbour"),
        J("h_steps", 16, 5, 5, 1, 4, 1, 2, 1, 4, 3, what="16 points, one anywhere, two steps"),
        J("h_steps", 24, 6, 6, 1, 3, 1, 2, 1, 3, 5, what="24 points, one anywhere, two steps"),
        J("h_steps", 12, 4, 4, 1, 3, 1, 2, 2, 3, 1, what="12 points, two anywhere, two steps"),
    ],
    checks={11: "saving and loading in between changes no list", 12: "the builder has all elements pushed so far", 13: "exactly the number asked for is indexed after a step",
            14: "a step leaves the layers above the last one alone", 15: "layers and sizes are those of one build", 16: "building again changes nothing",
            1: "the index has as many elements as asked for", 2: "layers never shrink", 3: "no layer exceeds the number of elements", 4: "neighbour limit",
            5: "neighbour ids are inside the layer", 6: "no self links", 7: "no duplicate links"},
    bounds="up to 4 elements (5 thorough), 2 or 3 steps with every possible partial count, any number of elements pushed before each step, with and without save and reload in between, every symmetric distance table over 0..255; 10 and 14 (24 thorough) fixed points of which 1 (2) is at any place of its row.",
    outside="other larger collections, more steps.",
)
# ------------------------------------------------------------------ C05
PROPS["C05"] = dict(
    quick=[
        J("h_exact", 4, 0, 2, 0, what="4 elements, all linked"),
        J("h_exact", 4, 1, 2, 0, what="with reinsertion"),
        J("h_exact", 4, 1, 9, 0, what="two layers"),
        J("h_exact", 4, 0, 130, 0, what="several large layers (layer multiplier 1.3)"),
        J("h_exact", 4, 1, 130, 0, what="several large layers, reinsertion"),
        J("h_exact", 3, 1, 130, 1, what="3 elements and a query, several large layers"),
        J("h_exact", 3, 0, 2, 1, what="3 elements and a query"),
        J("h_exact", 3, 1, 4, 1, what="3 elements and a query, two layers"),
        J("h_exact", 1, 1, 2, 1, what="one element"),
        J("h_exact", 2, 1, 2, 1, what="two elements"),
        J("h_exact", 9, 1, 3, 1, 2, 3, 1, what="9 points and a query, two of them anywhere"),
        J("h_exact", 24, 1, 5, 1, 2, 3, 1, what="24 points and a query"),
        J("h_exact", 16, 0, 130, 1, 2, 3, 4, what="16 points and a query, several large layers"),
        J("h_exact", 40, 0, 150, 0, 1, 3, 1, what="40 points, ten layers"),
        J("h_exact", 70, 0, 15, 1, 1, 2, 2, what="70 points and a query"),
    ],
    thorough=[
        J("h_exact", 4, 0, 9, 1, what="4 elements and a query"),
        J("h_exact", 5, 0, 3, 0, what="5 elements, all linked"),
        J("h_exact", 14, 1, 3, 1, 3, 3, 1, what="14 points and a query, three of them anywhere"),
    ],
    checks={1: "every element is indexed", 2: "every element is linked to every other one", 3: "a search returns as many as asked for", 4: "the distance is right",
            5: "distances ascend", 6: "nothing left out is closer"},
    bounds="1 to 4 elements (5 thorough), every symmetric distance table over 0..255, layer multipliers 1.3, 2, 4 and 9, queries with any distances; 9, 16, 24 and 70 fixed points and a query (40 without), which like one (two thorough) of the points is at any place of its row.",
    outside="other larger collections.",
)
# ------------------------------------------------------------------ C06
PROPS["C06"] = dict(
    quick=[
        J("h_select", 4, 4, 3, 0, 50, 10, what="a list of 3 against a limit of 2, the new element is not linked"),
        J("h_select", 4, 4, 3, 1, 50, 10, what="selection for the new element and for the ones it is linked to"),
        J("h_select", 4, 2, 2, 0, 50, 10, what="limit 1"),
        J("h_select", 3, 6, 2, 1, 50, 10, what="limit 3: all candidates are kept"),
        J("h_select", 5, 6, 4, 0, 60, 10, what="a list of 4 against a limit of 3"),
        J("h_select", 5, 4, 4, 0, 60, 10, what="a list of 4 against a limit of 2"),
        J("h_select", 12, 12, 11, 1, 260, 20, 3, 3, 3, what="lists of up to 12 points against a limit of 6, three points anywhere"),
        J("h_select", 24, 24, 23, 1, 1000, 40, 3, 3, 2, what="lists of up to 24 points against a limit of 12"),
        J("h_select", 24, 24, 23, 0, 1000, 40, 3, 3, 4, what="a list of 23 points against a limit of 12"),
        J("h_select", 20, 20, 17, 1, 840, 40, 3, 3, 6, what="lists of up to 18 points against a limit of 10"),
    ],
    thorough=[
        J("h_select", 4, 2, 2, 1, 50, 10, what="live, limit 1"),
        J("h_select", 6, 6, 5, 0, 70, 10, what="a list of 5 against a limit of 3"),
        J("h_select", 5, 6, 3, 1, 60, 10, what="live, limit 3"),
        J("h_select", 16, 15, 14, 1, 680, 40, 4, 4, 8, what="lists of up to 15 points against a limit of 7, four anywhere"),
    ],
    checks={1: "at most the limit", 2: "kept ones are candidates", 3: "no duplicates", 4: "ascending distance", 5: "everything is kept when there is room",
            6: "a closest candidate is first", 7: "no kept neighbour is closer to an earlier kept one than to the element", 8: "a candidate is dropped only if covered or the list is full of closer ones",
            9: "the element was added to the layer", 10: "without links only if a duplicate", 11: "an element far from itself is not linked"},
    bounds="up to 5 candidates against limits of 1 to 3, every symmetric distance table over 0..255; up to 24 candidates that are points of a grid, three of them at any place of their row, against limits of 6 to 12.",
    outside="other longer candidate lists. Observed through the lists of an index to which one element is added.",
)
# ------------------------------------------------------------------ C07
PROPS["C07"] = dict(
    quick=[
        J("h_save", 13, 2, 0, 3, 16, 1, 0, what="loaded index, start position 3, 16 alignments, 0 to 2 links"),
        J("h_save", 24, 1, 0, 0, 8, 0, 1, what="loaded index, with search"),
        J("h_save", 13, 2, 1, 0, 8, 0, 0, what="builder"),
        J("h_save", 14, 1, 1, 5, 1, 0, 1, what="builder, with search"),
        J("h_save", 24, 1, 2, 3, 1, 0, 0, what="reordered by keys"),
        J("h_save", 14, 1, 3, 3, 1, 0, 0, what="reordered"),
        J("h_save", 24, 1, 4, 0, 1, 0, 0, what="through files (memory mapped)"),
        J("h_save", 4, 2, 0, 0, 8, 1, 0, what="one layer of 4"),
        J("h_save", 0, 1, 0, 2, 1, 0, 0, what="no elements"),
        J("h_save", 0, 1, 1, 0, 1, 0, 0, what="no elements, builder"),
        J("h_save", 4, 1, 1, 0, 1, 0, 1, what="one layer, builder, search"),
        J("h_save", 13, 2, 1, 3, 8, 1, 0, flavour="rel", what="without debug assertions"),
        J("h_save_big", 300, 3, 5, 0, 2, 0, 1, 3, what="300 elements in three layers, two arbitrary links"),
        J("h_save_big", 300, 2, 7, 1, 2, 0, 2, 0, what="builder of 300 elements"),
        J("h_save_big", 70000, 1, 4, 0, 1, 1, 2, 0, what="70000 elements, ids of up to 17 bits"),
    ],
    thorough=[
        J("h_save", 124, 2, 0, 3, 16, 1, 0, what="three layers"),
        J("h_save", 25, 2, 1, 1, 8, 1, 0, what="builder, more links"),
        J("h_save", 135, 2, 4, 0, 1, 1, 0, what="three layers through files"),
        J("h_save", 25, 3, 3, 0, 8, 0, 0, what="reordered, 5 elements"),
        J("h_save_big", 70000, 2, 4, 1, 1, 1, 1, 0, what="builder of 70000 elements"),
        J("h_save_big", 5000, 3, 20, 1, 1, 0, 3, 5, what="builder of 5000 elements with 20 links each"),
    ],
    checks={1: "number of layers", 2: "number of elements", 3: "layer length", 4: "neighbour sets", 5: "search results", 6: "writing the loaded index gives as many bytes", 7: "and the same bytes",
            8: "bytes before the start are untouched", 9: "the index loaded from a file is the same", 10: "a file holds the bytes written to memory", 11: "the header tells the numbers of elements and layers"},
    bounds="up to 4 elements in up to 2 layers (5 elements, 3 layers thorough), any lists of 0 to 2 different ids, start positions 0 to 5, buffers at each of 16 (8) byte offsets; 300 and 70000 elements with fixed lists but for up to two links; Cursor and (modelled) file destinations.",
    outside="other larger indexes (C08 and C09 cover long lists and many lists); real file systems (the harness runs on a model of open/read/write/seek/mmap).",
)
# ------------------------------------------------------------------ C08
LIST_CHECKS = {1: "number of elements", 2: "one layer", 3: "layer length", 4: "as many ids as stored", 5: "the same ids in ascending order", 6: "sorting sorted keys changes nothing"}
PROPS["C08"] = dict(
    quick=[
        J("h_ids", 3, 3, what="two lists of 3 arbitrary ids"),
        J("h_ids", 4, 2, what="lists of 4 and 2 arbitrary ids"),
        J("h_ids", 5, 1, what="lists of 5 and 1"),
        J("h_ids", 1, 0, what="one id, and an empty list"),
        J("h_gaps", 254, 2, 3, 1, what="254 ids, two arbitrary gaps"),
        J("h_gaps", 0, 2, 0, 1, what="18 lengths with a mixture of gaps, two arbitrary ones", deadline=60),
        J("h_gaps", 0, 1, 4, 0, what="18 lengths of large gaps", deadline=60),
        J("h_ids", 4, 1, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_ids", 6, 0, what="6 arbitrary ids"),
        J("h_ids", 6, 2, what="6 and 2 arbitrary ids"),
        J("h_ids", 8, 0, what="8 arbitrary ids"),
        J("h_gaps", 0, 4, 2, 1, what="18 lengths, four arbitrary gaps"),
        J("h_gaps", 0, 4, 1, 0, what="18 lengths, four arbitrary gaps at the front"),
        J("h_gaps", 200, 3, 0, 1, what="200 ids, three arbitrary gaps"),
    ],
    checks=LIST_CHECKS,
    bounds="two lists of up to 5 (8 thorough) arbitrary ascending 32-bit ids (repeats included); lists of 18 lengths from 1 to 254 whose gaps have 1 to 4 bytes with up to 2 (4) arbitrary gaps below 2^27 among them.",
    outside="longer lists with more than 4 symbolic gaps; the id 2^32-1 (the builder's mark for no neighbour) and lists of 255 or more ids, which no builder makes.",
)
# ------------------------------------------------------------------ C09
PROPS["C09"] = dict(
    quick=[
        J("h_offsets", 121, 254, 2, 0, what="121 long lists (positions beyond 65535), lengths near borders arbitrary"),
        J("h_offsets", 59, 20, 2, 0, what="59 lists"),
        J("h_offsets", 60, 20, 2, 0, what="60 lists"),
        J("h_offsets", 61, 3, 2, 1, what="61 lists, through reordering"),
        J("h_offsets", 119, 20, 1, 1, what="119 lists, through reordering"),
        J("h_offsets", 0, 5, 1, 0, what="13 counts of lists"),
    ],
    thorough=[
        J("h_offsets", 0, 254, 2, 0, what="13 counts of lists, long lists"),
        J("h_offsets", 0, 20, 2, 1, what="13 counts of lists, through reordering"),
        J("h_offsets", 181, 100, 2, 0, what="181 lists"),
        J("h_offsets", 240, 254, 2, 0, what="240 lists"),
    ],
    checks=LIST_CHECKS,
    bounds="1 to 122 lists (240 thorough) of 0 to 254 ids; the lengths of the one or two lists on both sides of every 60-entry border and of the last lists are arbitrary in {0, half, full}.",
    outside="more lists; lists longer than 254 ids, whose gaps could exceed the 16-bit entries.",
)
# ------------------------------------------------------------------ C10
PROPS["C10"] = dict(
    quick=[
        J("h_vectors", 0, 2, 2, what="f32, dimension 2, two operations"),
        J("h_vectors", 0, 3, 3, what="f32, dimension 3, three operations"),
        J("h_vectors", 0, 1, 3, what="f32, dimension 1, three operations"),
        J("h_vectors", 1, 3, 2, what="i8, dimension 3"),
        J("h_vectors", 1, 1, 3, what="i8, dimension 1, three operations"),
        J("h_vectors", 0, 3, 2, 1000, what="f32, a thousand vectors"),
        J("h_vectors", 1, 2, 1, 5000, what="i8, five thousand vectors"),
        J("h_vectors", 1, 300, 1, 0, what="i8, dimension 300"),
        J("h_vectors", 0, 130, 1, 60, what="f32, 60 vectors of dimension 130"),
        J("h_vectors_bad", 0, 0, what="f32, scalars that do not fill whole vectors"),
        J("h_vectors_bad", 0, 1, what="f32, bytes that do not fill whole vectors"),
        J("h_vectors_bad", 1, 0, what="i8, scalars that do not fill whole vectors"),
        J("h_vectors_bad", 1, 1, what="i8, bytes that do not fill whole vectors"),
        J("h_vectors", 0, 2, 2, flavour="rel", what="f32 without debug assertions"),
    ],
    thorough=[
        J("h_vectors", 0, 2, 4, what="f32, four operations"),
        J("h_vectors", 1, 5, 4, what="i8, dimension 5, four operations"),
        J("h_vectors", 0, 7, 3, what="f32, dimension 7, three operations"),
    ],
    checks={1: "dimension", 2: "length", 3: "number of scalars", 4: "length of a vector", 5: "bit-identical scalars", 6: "writing reports the number of bytes it wrote",
            7: "a vector of another dimension is refused", 8: "a collection of another dimension is refused", 9: "header and scalars are written, nothing else", 10: "loading and writing again gives the same bytes",
            "h_vectors_bad:1": "constructors and loaders refuse data that is not a whole number of vectors"},
    bounds="every bit pattern of the scalars; histories of up to 3 (4 thorough) operations out of push, extend, push of another dimension, save and load at any of 8 alignments, copy-and-grow; dimensions 1 to 3 (7 thorough); collections of 60 to 5000 vectors and of dimensions 130 and 300 whose first, middle and last scalars are arbitrary; 0 to 6 scalars for dimensions 0 to 4.",
    outside="longer histories; extending a collection with one that has no dimension yet.")
# ------------------------------------------------------------------ C11
PROPS["C11"] = dict(
    quick=[
        J("h_terms", 2, 2, 2, 0, what="two elements of up to 2 small terms, two operations"),
        J("h_terms", 3, 2, 2, 0, what="three elements"),
        J("h_terms", 2, 2, 1, 1, what="any 64-bit ids"),
        J("h_terms", 1, 3, 2, 1, what="three terms, any 64-bit ids"),
        J("h_terms", 1, 2, 1, 0, 300, what="300 elements, some of more than 255 terms"),
        J("h_terms", 1, 2, 0, 0, 70000, what="70000 elements"),
        J("h_sum", 3, 2, 3, 0, what="sums of 3 embeddings of dimension 2"),
        J("h_sum", 2, 33, 2, 1, what="dimension 33, through files"),
        J("h_sum", 1, 2, 2, 0, what="sums of a single embedding"),
        J("h_sum", 3, 2, 300, 0, what="a sum of 300 embeddings"),
        J("h_terms", 2, 2, 1, 1, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_terms", 3, 3, 3, 0, what="three elements of up to 3 terms, three operations"),
        J("h_terms", 2, 3, 2, 1, what="any 64-bit ids"),
        J("h_sum", 4, 3, 4, 1, what="sums of 4 embeddings"),
        J("h_sum", 2, 65, 2, 0, what="dimension 65"),
    ],
    checks={1: "number of elements", 2: "number of terms", 3: "the same terms in order", 4: "writing embeddings reports the bytes written", 5: "writing elements reports the bytes written",
            6: "an id is refused exactly if it does not fit 24 bits", 7: "number of embeddings", 8: "loading without elements gives none",
            "h_sum:1": "nothing is known without embeddings", "h_sum:2": "number of embeddings", "h_sum:3": "dimension", "h_sum:4": "component-wise sum in order", "h_sum:5": "an unknown term is refused", "h_sum:6": "an unknown element is refused"},
    bounds="up to 3 elements of up to 3 terms, ids any 64-bit value (or any below 2^24), up to 2 (3 thorough) operations out of push, copy-and-grow, save and load; 300 and 70000 fixed elements (some of up to 400 terms) and an arbitrary one; sums of up to 3 (4) embeddings with arbitrary f32 bit patterns, dimensions 2 to 33 (65), and of 300 of which the first and last are arbitrary.",
    outside="other large collections (C14's chunk-sized permutation and C21's ranges use larger collections).")
# ------------------------------------------------------------------ C12, C13
RE_CHECKS = {1: "the order has an entry per element", 2: "entries are ids", 3: "no id occurs twice", 4: "every layer is mapped to itself", 5: "the elements are moved by the order",
             6: "the number of layers stays", 7: "layer sizes stay", 8: "as many neighbours as before", 9: "neighbours are renamed by the order", 10: "a wrong number of keys is refused",
             11: "and the elements stay", 12: "and the lists stay", 13: "keys ascend within each layer's own range", 14: "search results are the renamed ones"}
PROPS["C12"] = dict(quick=[
        J("h_reorder", 24, 2, 0, 0, 255, 0, what="two layers of 2 and 4"),
        J("h_reorder", 14, 2, 0, 0, 255, 0, what="two layers of 1 and 4"),
        J("h_reorder", 4, 2, 0, 0, 3, 0, what="one layer"),
        J("h_reorder", 24, 2, 0, 0, 255, 0, progress=True, what="two layers, showing progress"),
        J("h_reorder", 124, 1, 0, 0, 255, 0, what="three layers"),
        J("h_reorder", 1111111113, 1, 0, 0, 255, 0, what="ten layers"),
        J("h_reorder", 1111111222, 1, 0, 0, 255, 0, what="ten layers, the last ones of 2"),
        J("h_reorder", 13, 1, 0, 0, 255, 1, what="search results"),
        J("h_reorder", 0, 1, 0, 0, 255, 0, what="no elements"),
        J("h_reorder", 1, 1, 0, 0, 255, 0, what="one element"),
        J("h_reorder_big", 60, 3, 4, 0, 2, 3, 1, 0, 1, what="60 elements in three layers, two of them anywhere"),
        J("h_reorder_big", 60, 5, 4, 0, 2, 3, 1, 0, 2, what="60 elements in five layers, two of them of the same size"),
        J("h_reorder_big", 10100, 2, 3, 0, 2, 2, 0, 1, 1, what="10100 elements, more than are moved in one piece"),
    ], thorough=[
        J("h_reorder", 135, 2, 0, 0, 255, 0, what="three layers of 1, 3, 5"),
        J("h_reorder", 25, 2, 0, 0, 255, 1, what="two layers, search results"),
        J("h_reorder", 24, 3, 0, 0, 255, 1, what="more links, search results"),
        J("h_reorder_big", 70000, 2, 3, 0, 1, 2, 0, 1, 1, what="70000 elements"),
    ], checks=RE_CHECKS, bounds="indexes of 0 to 4 elements (5 thorough) in 0 to 3 (and 10) layers with any lists of up to 2 different neighbours, every distance table over 0..255 (0..3 for one layer), queries with pairwise different distances whose descent ends in the same element.",
    outside="other larger indexes (60 and 10100 elements that are fixed but for one or two places and a link are covered); searches that end the descent elsewhere or have ties (the result then depends on the order of elements).")
PROPS["C13"] = dict(quick=[
        J("h_reorder", 24, 2, 1, 0, 255, 0, what="two layers of 2 and 4"),
        J("h_reorder", 14, 1, 1, 0, 255, 0, what="two layers of 1 and 4"),
        J("h_reorder", 4, 2, 1, 0, 255, 0, what="one layer"),
        J("h_reorder", 24, 2, 1, 0, 255, 0, progress=True, what="two layers, showing progress"),
        J("h_reorder", 124, 1, 1, 0, 255, 0, what="three layers"),
        J("h_reorder", 1111122223, 1, 1, 0, 255, 0, what="ten layers"),
        J("h_reorder", 3, 1, 2, 0, 255, 0, what="a wrong number of keys"),
        J("h_reorder", 0, 1, 1, 0, 255, 0, what="no elements"),
        J("h_reorder", 0, 1, 2, 0, 255, 0, what="no elements, a key too many"),
        J("h_reorder_big", 60, 3, 4, 1, 2, 3, 1, 0, 2, what="60 elements in three layers, two arbitrary keys"),
        J("h_reorder_big", 10100, 2, 3, 1, 2, 2, 0, 1, 1, what="10100 elements, more than are moved in one piece"),
    ], thorough=[
        J("h_reorder", 5, 1, 1, 0, 255, 0, what="five elements"),
        J("h_reorder", 25, 2, 1, 0, 255, 0, what="two layers of 2 and 5"),
        J("h_reorder", 135, 2, 1, 0, 255, 0, what="three layers of 1, 3, 5"),
        J("h_reorder_big", 60, 2, 4, 1, 3, 3, 1, 0, 2, what="60 elements, three arbitrary keys"),
    ], checks=RE_CHECKS, bounds="indexes of 0 to 4 elements (5 thorough) in 0 to 3 (and 10) layers with any lists of up to 2 different neighbours; every key assignment over 0..255; one key too many or too few.",
    outside="other larger indexes (60 and 10100 elements that are fixed but for two keys and a link are covered).")
# ------------------------------------------------------------------ C14
PROPS["C14"] = dict(
    quick=[
        J("h_permute", 0, 4, 2, 0, what="4 f32 vectors of dimension 2"),
        J("h_permute", 0, 5, 1, 0, what="5 f32 vectors"),
        J("h_permute", 1, 4, 3, 0, what="4 i8 vectors of dimension 3"),
        J("h_permute", 2, 4, 2, 0, what="4 sum-embedding elements of up to 2 terms"),
        J("h_permute", 0, 3, 2, 1, what="a permutation of another length, f32"),
        J("h_permute", 1, 3, 2, 1, what="a permutation of another length, i8"),
        J("h_permute", 2, 3, 2, 1, what="a permutation of another length, sum embeddings"),
        J("h_permute", 0, 0, 2, 0, what="no elements"),
        J("h_permute_big", 20003, what="20004 sum-embedding elements, two arbitrary ones change places", deadline=60),
        J("h_permute_big", 300, 1, 3, what="300 f32 vectors"),
        J("h_permute_big", 5000, 2, 2, what="5000 i8 vectors"),
        J("h_permute_big", 60, 1, 200, what="60 f32 vectors of dimension 200"),
    ],
    thorough=[
        J("h_permute", 0, 6, 2, 0, what="6 f32 vectors"),
        J("h_permute", 1, 6, 2, 0, what="6 i8 vectors"),
        J("h_permute", 2, 5, 2, 0, what="5 sum-embedding elements"),
    ],
    checks={1: "a permutation of another length is refused, others are not", 2: "length and dimension stay", 3: "the element that was at p[i] is at i, bit for bit", 4: "a refused permutation changes nothing",
            5: "number of terms", "h_permute_big:1": "the number of elements stays", "h_permute_big:2": "elements of one term", "h_permute_big:3": "empty elements", "h_permute_big:4": "elements of two terms",
            "h_permute_big:5": "every other vector is the one that was at p[i]", "h_permute_big:6": "the arbitrary vector too, bit for bit"},
    bounds="every permutation of up to 5 (6 thorough) elements with arbitrary contents; for 20004 sum-embedding elements every transposition among a spread of positions, for 60, 300 and 5000 vectors a rotation with any two of 8 places exchanged.",
    outside="other permutations of large collections.")
# ------------------------------------------------------------------ C15
PROPS["C15"] = dict(
    quick=[
        J("h_fault", 0, 13, 2, 0, what="loaded index", reach=[1, 2]),
        J("h_fault", 1, 13, 2, 0, what="builder", reach=[1, 2]),
        J("h_fault", 0, 0, 1, 0, what="index without elements", reach=[1, 2]),
        J("h_fault", 0, 0, 100, 90, what="90 lists of 100: more than the buffer holds", reach=[1, 2]),
        J("h_fault", 1, 0, 0, 4000, what="builder, 4000 lists: more borders than the buffer holds", reach=[1, 2]),
        J("h_fault", 0, 0, 0, 4000, what="loaded index, 4000 lists", reach=[1, 2]),
        J("h_fault", 2, 3, 2, what="f32 vectors", reach=[1, 2]),
        J("h_fault", 3, 3, 2, what="i8 vectors", reach=[1, 2]),
        J("h_fault", 4, 3, 2, what="sum embeddings: elements", reach=[1, 2]),
        J("h_fault", 5, 3, 2, what="sum embeddings: embeddings", reach=[1, 2]),
        J("h_fault_rw", 2, 0, what="concurrent builder, the index fails", reach=[1, 2]),
        J("h_fault_rw", 2, 1, what="concurrent builder, the elements fail", reach=[1, 2]),
        J("h_fault_rw", 2, 1, 4500, what="concurrent builder, elements of 4500 components", reach=[1, 2]),
        J("h_fault_edge", 723, 10, 1, what="730 lists: a small write empties the buffer", reach=[1, 2]),
        J("h_full", 0, 3, 2, what="files cannot grow: concurrent builder", reach=[1, 2]),
        J("h_full", 0, 4, 4500, what="files cannot grow: concurrent builder, long elements", reach=[1, 2]),
        J("h_full", 1, 6, 3, what="files cannot grow: three shards", reach=[1, 2]),
        J("h_full", 2, 5, 4, what="files cannot grow: computed embeddings", reach=[1, 2]),
        J("h_full", 2, 3, 4000, what="files cannot grow: computed long embeddings", reach=[1, 2]),
    ],
    thorough=[
        J("h_full", 1, 3000, 2, what="files cannot grow: two shards of 1500", reach=[1, 2]),
        J("h_fault", 0, 124, 2, 0, what="three layers", reach=[1, 2]),
        J("h_full", 1, 3000, 2, what="files cannot grow: two shards of 1500", reach=[1, 2]),
        J("h_fault", 1, 0, 200, 90, what="builder, large", reach=[1, 2]),
        J("h_fault_rw", 4, 0, what="concurrent builder, 4 elements", reach=[1, 2]),
    ],
    checks={1: "the number of bytes reported is the number written", 2: "no success after a failed write, seek or flush", 3: "as many bytes as without the fault", 4: "the same bytes",
            5: "the same number reported", 6: "short and interrupted writes are retried", 7: "no failure without a fault", 8: "the other part is written too",
            21: "saving works while the files can grow", 22: "no success when the files are too small for everything", 23: "files saved successfully are whole", 24: "no failure when everything fits"},
    bounds="one fault (error, nothing accepted, interruption, short write of 1 to 9 bytes, or failing from there on) at any write, seek or flush the destination sees; indexes of 0, 3, 90, 730 and 4000 elements, 3 vectors, 3 sum-embedding elements, concurrent builders of 2; concurrent builders, shards and computed embeddings of up to 18 kB saved to real files which cannot grow beyond any (at 128 places and around the buffer size for the longer ones) size.",
    outside="several faults of different kinds in one save; other failures of real files than not being able to grow.",
)
# ------------------------------------------------------------------ C16
PROPS["C16"] = dict(
    quick=[
        J("h_crash", 13, 2, 0, 0, 0, what="loaded index, cut anywhere", reach=[1, 2]),
        J("h_crash", 13, 2, 1, 0, 0, what="builder, cut anywhere", reach=[1, 2]),
        J("h_crash", 0, 1, 0, 0, 0, what="no elements", reach=[1, 2]),
        J("h_crash", 0, 100, 0, 90, 0, what="90 lists of 100", reach=[1, 2]),
        J("h_crash", 13, 2, 0, 0, 1, what="loaded index, one operation fails", reach=[1, 2]),
        J("h_crash", 13, 2, 1, 0, 1, what="builder, one operation fails", reach=[1, 2]),
        J("h_crash", 0, 100, 0, 90, 1, what="90 lists of 100, one operation fails", reach=[1, 2]),
    ],
    thorough=[
        J("h_crash", 124, 2, 0, 0, 0, what="three layers", reach=[1, 2]),
        J("h_crash", 0, 200, 1, 90, 0, what="builder, 90 lists of 200", reach=[1, 2]),
    ],
    checks={1: "the complete file loads", 2: "what loads has the right length", 3: "and the right lists"},
    bounds="a stop after any byte of any write (writes of more than 1 KB: within 64 bytes of either end, and at multiples of 1000), or one failing operation with or without everything after it failing; indexes of 0, 3 and 90 elements.",
    outside="destinations that hold something else before; writes that reach the disk out of order.",
)
# ------------------------------------------------------------------ C17
PROPS["C17"] = dict(
    quick=[
        J("h_angular", 2, 3, 0, what="small whole components, two dimensions"),
        J("h_angular", 3, 3, 0, what="three dimensions"),
        J("h_angular", 34, 4, 33, what="34 dimensions, all but the last fixed"),
        J("h_angular", 33, 3, 31, what="33 dimensions, the last of a block and the first after it"),
        J("h_angular", 32, 3, 30, what="exactly one block"),
        J("h_angular", 65, 4, 63, what="65 dimensions"),
        J("h_angular", 97, 4, 95, what="97 dimensions"),
        J("h_angular", 128, 4, 126, what="128 dimensions"),
        J("h_angular", 200, 4, 199, what="200 dimensions"),
        J("h_angular", 300, 3, 298, what="300 dimensions"),
        J("h_angular_any", 1, 60, what="any components up to 2^61, one dimension"),
        J("h_angular_any", 2, 0, what="any components below 2, two dimensions"),
        J("h_angular_any", 3, 60, what="any components up to 2^61, three dimensions"),
        J("h_sumdist", 1, 3, what="sums of embeddings, one dimension"),
        J("h_sumdist", 2, 2, what="sums of embeddings, two dimensions"),
        J("h_normalize", 1, 3, 1, what="making a vector, one dimension"),
        J("h_normalize", 2, 4, 1, what="two dimensions"),
        J("h_normalize", 3, 3, 1, 1, what="three dimensions, collected"),
        J("h_normalize", 2, 4, 1, 0, 0, 87, what="two dimensions, times 2^-40"),
        J("h_normalize", 3, 3, 1, 1, 0, 157, what="three dimensions, times 2^30, collected"),
        J("h_normalize", 1, 3, 1, 0, 0, 77, what="one dimension, times 2^-50"),
        J("h_normalize", 34, 3, 1, 0, 32, 92, what="34 dimensions, times 2^-35"),
        J("h_normalize", 0, 3, 0, what="no dimension"),
        J("h_normalize", 34, 3, 1, 0, 32, what="34 dimensions"),
        J("h_normalize", 65, 3, 1, 1, 64, what="65 dimensions, collected"),
        J("h_normalize", 128, 3, 1, 0, 127, what="128 dimensions"),
        J("h_normalize", 200, 3, 1, 1, 199, what="200 dimensions, collected"),
        J("h_angular", 2, 3, 0, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_angular", 3, 4, 0, what="three dimensions, more bits"),
        J("h_angular", 33, 4, 30, what="33 dimensions, three arbitrary"),
        J("h_angular", 2, 6, 0, what="two dimensions, components -32..31"),
        J("h_angular_any", 8, 60, what="any components, eight dimensions"),
        J("h_angular_any", 5, 0, what="any components below 2, five dimensions"),
        J("h_normalize", 3, 4, 1, what="three dimensions, more bits"),
        J("h_sumdist", 2, 3, what="sums of embeddings, more bits"),
        J("h_normalize", 2, 5, 1, what="two dimensions, more bits"),
        J("h_normalize", 4, 3, 1, what="four dimensions"),
    ],
    checks={
        "h_angular:1": "never negative", "h_angular:2": "one minus the dot product, not below 0", "h_angular:3": "symmetric", "h_angular:4": "the collection's distance",
        "h_angular:5": "its distance to a query", "h_angular:6": "as many distances as asked for", "h_angular:7": "distances in a batch", "h_angular:8": "zero vectors are at distance 1",
        "h_angular_any:1": "neither negative nor NaN", "h_angular_any:2": "symmetric", "h_angular_any:3": "the collection's distance", "h_angular_any:4": "its distance to a query", "h_angular_any:5": "distances in a batch",
        "h_angular:9": "the same in plain lists of vectors and borrowed collections",
        "h_sumdist:1": "the dimension is kept", "h_sumdist:2": "an element of a sum is its normalised sum", "h_sumdist:3": "no terms: distance 1", "h_sumdist:4": "distances are those of the normalised sums, singly, in batches and to a query",
        "h_normalize:1": "the dimension is kept", "h_normalize:2": "signs are kept", "h_normalize:3": "the order of components is kept", "h_normalize:4": "equal components stay equal",
        "h_normalize:5": "a zero vector stays zero", "h_normalize:6": "unit length", "h_normalize:7": "a vector is at distance 0 from itself"},
    bounds="distances: whole components of 3 to 6 bits in 1 to 3 dimensions, and in 32, 33, 34, 65, 97, 128, 200 and 300 dimensions with 1 to 3 arbitrary components among fixed ones (exact arithmetic); any 32-bit floats below 2^61 in magnitude in up to 3 (8 thorough) dimensions for sign, NaN, symmetry and agreement; making vectors: whole components of 3 to 5 bits, also times 2^-50 to 2^30, in 0 to 4, 34, 65, 128 and 200 dimensions.",
    outside="components above 2^61 in magnitude (overflow); rounding of arbitrary fractions in the value itself; the vectorised AVX code LLVM would emit (the same IR, lanes in the same order); the blas feature.")
# ------------------------------------------------------------------ C18
PROPS["C18"] = dict(
    quick=[
        J("h_quantize", 1, 8, 0, what="one dimension, any byte"),
        J("h_quantize", 2, 3, 0, what="two dimensions"),
        J("h_quantize", 2, 4, 0, what="two dimensions, more bits"),
        J("h_quantize", 3, 3, 0, what="three dimensions"),
        J("h_quantize", 0, 3, 0, what="no dimension"),
        J("h_quantize", 34, 3, 32, what="34 dimensions"),
        J("h_quantize", 150, 3, 148, what="150 dimensions"),
        J("h_idist", 1, 0, 8, what="one dimension, any components"),
        J("h_idist", 2, 0, 3, what="two dimensions"),
        J("h_idist", 3, 0, 2, what="three dimensions"),
        J("h_idist", 4, 0, 2, what="four dimensions"),
        J("h_idist", 3, 2, 8, what="any component among extreme ones"),
        J("h_idist", 40, 39, 8, what="40 dimensions, any last component"),
        J("h_idist", 130, 129, 8, what="130 dimensions, any last component"),
        J("h_idist", 300, 299, 8, what="300 dimensions, any last component"),
        J("h_idist", 1200, 1199, 4, what="1200 dimensions, any small last component"),
        J("h_idist", 2, 0, 3, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_quantize", 3, 4, 0, what="three dimensions, more bits"),
        J("h_quantize", 65, 8, 64, what="65 dimensions, any byte last"),
        J("h_quantize", 1, 0, 0, what="one dimension, any float from 2^-120 to 2^120"),
        J("h_idist", 3, 0, 3, what="three dimensions, more bits"),
        J("h_idist", 2, 0, 8, what="two dimensions, any components"),
        J("h_idist", 3, 0, 8, what="three dimensions, any components"),
    ],
    checks={
        "h_quantize:1": "the dimension is kept", "h_quantize:2": "never below -127", "h_quantize:3": "signs are kept", "h_quantize:4": "the largest becomes 126 or 127", "h_quantize:5": "the smallest of largest magnitude becomes -126 or -127",
        "h_quantize:6": "zero stays zero", "h_quantize:7": "order is kept weakly", "h_quantize:8": "equal components stay equal", "h_quantize:9": "proportional up to 1",
        "h_idist:1": "neither negative nor NaN", "h_idist:2": "symmetric", "h_idist:3": "zero vectors are at distance 1", "h_idist:4": "one minus the cosine, not below 0",
        "h_idist:5": "the collection's distance", "h_idist:6": "its distance to a query", "h_idist:7": "distances in a batch", "h_idist:8": "the same in plain lists of vectors and borrowed collections"},
    bounds="quantising whole components of 3, 4 and 8 bits in 0 to 3 dimensions and 34, 65, 150 dimensions with few arbitrary ones (one dimension: any float from 2^-120 to 2^120, thorough); distances of all pairs of bytes in one dimension (three thorough), 2 or 3 bits in up to 4, any byte among extreme ones in 3, 40, 130, 300 and 1200 dimensions.",
    outside="ratios between arbitrary fractions; magnitudes above 2^120, where 127/max or the product overflows.")
# ------------------------------------------------------------------ C19
RW_CHECKS = {1: "number of elements", 2: "an insertion returns the next id", 3: "an insertion beyond the capacity is refused", 4: "a batch gets consecutive ids; what does not fit is refused",
    5: "the saved elements are those inserted, in order", 6: "the saved index has as many elements", 7: "a builder made from a saved index has as many elements", 8: "and can be extended",
    9: "every id gives the element inserted under it", 10: "at most min(num_neighbors, max_search) hits", 11: "something is found once there is an element", 12: "hits are elements",
    13: "distances are the container's", 14: "nothing is found twice", 15: "distances ascend", 16: "the header of the saved index tells the numbers of elements and layers", 17: "its layers are as large as those of a plain index with that many expected elements", 20: "layers never shrink", 21: "neighbour limit", 22: "neighbours lie in their layer",
    23: "no self links", 24: "no duplicate links",
    "h_rw_exact:1": "everything is inserted", "h_rw_exact:2": "as many hits as asked for", "h_rw_exact:3": "the distance is right", "h_rw_exact:4": "distances ascend", "h_rw_exact:5": "nothing left out is closer",
    "h_rw_exact:6": "the saved index has all elements", "h_rw_exact:7": "every element is linked to every other one in the saved index"}
PROPS["C19"] = dict(
    quick=[
        J("h_rw", 3, 0, 3, 2, 2, 2, 0, 1, what="capacity 3, three operations, 4 elements to insert", reach=[1, 2]),
        J("h_rw", 2, 0, 2, 2, 2, 2, 0, 1, what="capacity 2", reach=[1, 2]),
        J("h_rw", 3, 1, 2, 2, 2, 2, 0, 1, what="an element there before", reach=[1, 2]),
        J("h_rw", 4, 1, 2, 4, 3, 9, 0, 1, what="one big layer growth", reach=[1, 2]),
        J("h_rw", 3, 0, 2, 4, 3, 2, 1, 1, what="elements that are far from themselves", reach=[1, 2]),
        J("h_rw", 1, 0, 3, 1, 1, 2, 0, 2, what="capacity 1, two too many", reach=[1, 2]),
        J("h_rw", 2, 3, 2, 2, 2, 2, 0, 1, what="more elements there than the capacity", reach=[1, 2]),
        J("h_rw", 0, 0, 2, 2, 2, 2, 0, 1, what="capacity 0", reach=[1, 2]),
        J("h_rw_exact", 3, 0, 2, what="small: everything is found"),
        J("h_rw_exact", 3, 1, 2, what="small, an element there before"),
        J("h_rw_exact", 3, 0, 9, what="small, one layer"),
        J("h_rw", 2, 0, 2, 2, 2, 2, 0, 1, flavour="rel", what="without debug assertions", reach=[1, 2]),
        J("h_rw", 10, 2, 2, 4, 4, 3, 1, 2, 0, 2, 3, 1, what="capacity 10, points, two of them anywhere", reach=[1, 2]),
        J("h_rw", 20, 5, 1, 4, 4, 3, 1, 2, 0, 2, 3, 1, what="capacity 20, 5 points there before", reach=[1, 2]),
        J("h_rw", 10, 4, 2, 3, 3, 130, 0, 0, 0, 2, 3, 4, what="capacity 10, points, many layers", reach=[1, 2]),
        J("h_rw", 60, 0, 1, 5, 5, 200, 1, 2, 0, 1, 3, 1, what="capacity 60, points", reach=[1, 2]),
        J("h_rw_exact", 8, 1, 3, 2, 2, 1, what="8 points: everything is found"),
        J("h_rw", 9, 2, 2, 3, 3, 3, 0, 0, 0, 1, 3, 1, 30, what="a builder that expects 0 to 29 elements, capacity 9", reach=[1, 2]),
    ],
    thorough=[
        J("h_rw", 4, 0, 3, 2, 2, 2, 0, 1, what="capacity 4, three operations", reach=[1, 2]),
        J("h_rw", 4, 2, 2, 2, 2, 3, 0, 1, what="capacity 4, two there before", reach=[1, 2]),
        J("h_rw", 3, 0, 4, 2, 2, 2, 0, 1, 3, what="four operations", reach=[1, 2]),
        J("h_rw_exact", 4, 0, 2, what="small: everything is found, 4 elements"),
        J("h_rw_exact", 4, 2, 9, what="small, 4 elements"),
        J("h_rw", 8, 3, 3, 4, 4, 3, 1, 0, 0, 2, 3, 1, what="capacity 8, three operations, points", reach=[1, 2]),
    ],
    checks=RW_CHECKS,
    bounds="capacities 0 to 4, up to 3 operations (4 thorough) out of insert, batch insert of any size, search, save and load, save-load-continue, with up to 5 elements of arbitrary symmetric distances in 0..255, 0 to 4 elements there before, the listed num_neighbors, max_search and layer multipliers; capacities 8, 10, 20 and 60 with fixed points, of which (the query included) two are at any place of their row.",
    outside="other larger capacities; insertion on the builder's own thread pool (num_threads > 1).")
# ------------------------------------------------------------------ C20
RACE_CHECKS = {20: "layers never shrink", 21: "neighbour limit", 22: "neighbours lie in their layer", 23: "no self links", 24: "no duplicate links",
    30: "an accepted element counts", 31: "and is returned by its id", 32: "a batch never gets more ids than elements", 33: "at most max_search hits", 34: "a search after an insertion finds something",
    35: "hits are elements", 36: "distances are the container's", 37: "nothing is found twice", 38: "distances ascend", 39: "a save holds what was there when it began and nothing that was not when it ended",
    40: "a save holds as many indexed elements as elements", 41: "the saved elements are those of their ids", 42: "no element is saved half inserted", 50: "no thread panics", 51: "ids a thread gets ascend",
    52: "every accepted element has an id of its own, without gaps", 53: "the number of elements is that of the accepted ones", 54: "elements are refused only when the capacity is reached",
    55: "every id gives the element inserted under it", 56: "the final save has all elements", 57: "and as many indexed ones", 58: "a small builder finds everything afterwards"}
PROPS["C20"] = dict(
    quick=[
        J("h_race", 3, 1, 11, 2, 8, 8, 2, what="two insertions", reach=[1, 2]),
        J("h_race", 3, 0, 11, 2, 8, 8, 2, what="the first two insertions", reach=[1, 2]),
        J("h_race", 4, 1, 14, 2, 12, 12, 2, what="an insertion and a save", reach=[1, 2]),
        J("h_race", 4, 1, 64, 2, 12, 12, 2, what="a batch across layers and a save", reach=[1, 2]),
        J("h_race", 4, 1, 13, 2, 4, 2, 2, what="an insertion and a search"),
        J("h_race", 4, 1, 23, 2, 4, 2, 2, what="a batch and a search"),
        J("h_race", 2, 1, 22, 2, 12, 12, 2, what="two batches at the capacity", reach=[1, 2]),
        J("h_race", 4, 0, 22, 2, 12, 12, 2, what="two batches", reach=[1, 2]),
        J("h_race", 3, 1, 111, 1, 12, 12, 2, what="three insertions", reach=[1, 2]),
        J("h_race", 3, 1, 134, 1, 12, 12, 2, what="insertion, search and save", reach=[1, 2]),
        J("h_race", 4, 1, 11, 1, 2, 2, 2, 2, what="two insertions into short lists, distances arbitrary in 0..2"),
        J("h_race", 3, 0, 11, 1, 1, 1, 2, 2, what="two insertions into lists of one"),
    ],
    thorough=[
        J("h_race", 3, 1, 11, 3, 8, 8, 2, what="two insertions, three pre-emptions", reach=[1, 2]),
        J("h_race", 4, 1, 14, 3, 12, 12, 2, what="an insertion and a save, three pre-emptions", reach=[1, 2]),
        J("h_race", 4, 2, 55, 2, 4, 2, 2, what="two insertions each"),
        J("h_race", 4, 1, 111, 2, 16, 16, 2, what="three insertions, two pre-emptions", reach=[1, 2]),
        J("h_race", 4, 1, 134, 2, 16, 16, 2, what="insertion, search and save, two pre-emptions", reach=[1, 2]),
        J("h_race", 4, 1, 124, 2, 16, 16, 2, what="insertion, batch and save, two pre-emptions", reach=[1, 2]),
        J("h_race", 5, 1, 66, 2, 16, 16, 2, what="two batches of 3", reach=[1, 2]),
        J("h_race", 4, 1, 11, 2, 2, 2, 2, 3, what="two insertions into short lists, distances arbitrary in 0..3"),
        J("h_race", 4, 1, 12, 1, 2, 2, 2, 255, what="an insertion and a batch, short lists, any distances"),
    ],
    checks=RACE_CHECKS,
    bounds="2 or 3 threads of 1 to 3 insertions, a search or a save each; at every atomic operation of the program any other thread may be scheduled instead, up to 2 (3 thorough) pre-emptions, and any thread whenever one blocks; capacities 2 to 5, 0 to 2 elements there before; distances fixed, or arbitrary in 0..2 (0..255) where stated.",
    outside="more pre-emptions or threads; weakly ordered memory; insertion on the builder's own thread pool. Schedules cannot be forced natively: counterexamples are re-executed concretely in the interpreter.")
for j in PROPS["C20"]["quick"] + PROPS["C20"]["thorough"]:
    j["no_native"] = True
# ------------------------------------------------------------------ C21
PROPS["C21"] = dict(
    quick=[
        J("h_range", 3, 2, 1, 1, what="three elements, one appended twice, any range"),
        J("h_range", 0, 2, 2, 1, what="appending to nothing"),
        J("h_range", 2, 4, 0, 0, what="appending nothing"),
        J("h_range", 100, 3, 20, 1, what="100 elements, some of 300 terms"),
        J("h_range", 300, 2, 100, 0, what="300 elements and 100 more"),
        J("h_shards", 3, 5, 1, 0, 0, what="0 to 3 lines into 1 to 5 shards"),
        J("h_shards", 3, 5, 1, 1, 0, what="into a directory"),
        J("h_shards", 1, 3, 2, 2, 0, what="another file name"),
        J("h_shards", 3, 5, 1, 0, 0, progress=True, what="showing progress"),
        J("h_shards", 16, 6, 1, 0, 13, what="13 to 16 lines"),
        J("h_shards", 300, 4, 1, 0, 299, what="299 or 300 lines, one arbitrary"),
        J("h_shards", 1000, 3, 1, 0, 1000, what="1000 lines, one arbitrary"),
        J("h_shards", 2, 3, 1, 0, 0, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_range", 4, 3, 2, 1, what="four elements of up to three terms"),
        J("h_shards", 40, 9, 1, 0, 30, what="30 to 40 lines into 1 to 9 shards"),
        J("h_shards", 3, 4, 2, 0, 0, what="lines of two characters"),
    ],
    checks={
        "h_range:1": "appending concatenates (length)", "h_range:2": "number of elements", "h_range:3": "number of terms", "h_range:4": "terms in order", "h_range:5": "the bytes written are reported", "h_range:6": "and appended to what was there",
        "h_range:7": "a range loads as its elements (number)", "h_range:8": "number of terms", "h_range:9": "terms in order", "h_range:10": "the bytes of a whole collection are reported", "h_range:11": "the whole range is the collection",
        "h_range:12": "a loaded range can be extended", "h_range:13": "keeping its elements", "h_range:14": "and the new one",
        "h_shards:1": "the number of elements is reported", "h_shards:2": "no more shards than asked for", "h_shards:3": "the shards together hold every element", "h_shards:4": "with its number of terms", "h_shards:5": "and its terms in order"},
    bounds="collections of 0 to 4 elements of 0 to 4 terms with arbitrary 24-bit ids, appended to once or twice, every range of them; 0 to 3 lines of arbitrary characters in 1 to 5 shards and 13 to 16 (30 to 40 thorough) lines, one of them arbitrary, in up to 6 (9) shards; 100 to 400 elements, the first and last arbitrary, and ranges between 11 places of them; 300 and 1000 lines, one arbitrary.",
    outside="larger collections; the pool with more than one thread.")
# ------------------------------------------------------------------ C22
PROPS["C22"] = dict(
    quick=[
        J("h_damage", 1, 1, 2, 6, 0, 0, 0, what="size of the offset table, offsets and data arbitrary", reach=[1, 2]),
        J("h_damage", 1, 2, 2, 4, 0, 0, 1, what="two pieces of offsets", reach=[1, 2]),
        J("h_damage", 1, 1, 2, 6, 1, 0, 1, what="building on", reach=[1, 2]),
        J("h_damage", 1, 1, 2, 6, 0, 1, 1, what="searching", reach=[1, 2]),
        J("h_damage", 2, 1, 2, 3, 0, 1, 1, what="searching two layers", reach=[1, 2]),
        J("h_damage", 1, 1, 2, 6, 0, 0, 1, flavour="rel", what="without debug assertions", reach=[1, 2]),
    ],
    thorough=[
        J("h_damage", 1, 1, 3, 6, 0, 0, 1, what="three entries", reach=[1, 2]),
        J("h_damage", 1, 1, 3, 12, 0, 0, 1, what="three entries, more data", reach=[1, 2]),
        J("h_damage", 1, 1, 3, 9, 0, 1, 1, what="searching, three entries", reach=[1, 2]),
        J("h_damage", 1, 1, 2, 9, 0, 1, 1, flavour="rel", what="searching without debug assertions", reach=[1, 2]),
    ],
    checks={1: "the number of layers is the header's", 2: "at most 255 neighbours"},
    bounds="one or two layers whose size of the offset table (any 64-bit value), chunk starts (any 64-bit value), first 2 (3 thorough) chunk entries and 6 (12) data bytes are arbitrary, node numbers 0..255; lengths, neighbours, searches, and building on.",
    outside="arbitrary JSON headers (serde_json is not encoded); more data.")

# ------------------------------------------------------------------ C24
PROPS["C24"] = dict(
    quick=[
        J("h_text", 14, 0, 1, 0, 0, what="one line of 4 characters, escapes possible"),
        J("h_text", 13, 0, 1, 0, 1, what="no line end after the last line"),
        J("h_text", 1212, 0, 0, 0, 2, what="three lines, CR LF"),
        J("h_text", 1, 0, 0, 0, 0, what="an empty file"),
        J("h_text", 11111, 2, 1, 0, 1, what="four lines in two files"),
        J("h_text", 1101, 3, 0, 1, 0, what="three lines, one empty, in three files"),
        J("h_text", 13, 0, 0, 1, 0, what="in memory, arbitrary ids of words"),
        J("h_text", 11111, 2, 1, 0, 1, progress=True, what="four lines in two files, showing progress"),
        J("h_text", 12, 0, 0, 0, 0, 1, what="a compressed file"),
        J("h_text", 1101, 3, 0, 1, 0, 1, what="three lines in three files, two of them compressed"),
        J("h_text", 111, 0, 0, 0, 0, 2, what="two lines in a compressed file of two members"),
        J("h_embed", 101, 2, 3, progress=True, what="vectors of 101 elements, showing progress"),
        J("h_text_big", 300, 30, 8, 0, 0, what="300 words, 30 lines of 8"),
        J("h_text_big", 300, 10, 300, 0, 0, what="300 words, 10 lines of 300"),
        J("h_text_big", 70000, 3, 4, 0, 1, what="70000 words", deadline=60),
        J("h_text_big", 60, 120, 4, 12, 0, what="120 lines in 12 files"),
        J("h_embed", 2, 2, 3, what="vectors of two elements"),
        J("h_embed", 101, 2, 3, what="vectors of 101 elements"),
        J("h_embed", 100, 2, 2, what="vectors of 100 elements"),
        J("h_text", 12, 0, 0, 0, 0, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_text", 15, 0, 0, 1, 1, what="one line of 5 characters"),
        J("h_text", 15, 0, 1, 0, 0, what="one line of 5 characters, escapes possible"),
        J("h_text", 12121, 3, 0, 0, 0, what="four lines in three files"),
        J("h_embed", 250, 3, 3, what="vectors of 250 elements"),
    ],
    checks={
        "h_text:1": "the number of elements is reported", "h_text:2": "one element per line", "h_text:3": "as many terms as known words after the last colon", "h_text:4": "their ids in order",
        "h_embed:1": "one vector per element", "h_embed:2": "of the embeddings' dimension", "h_embed:3": "the quantised sum of its terms, in element order"},
    bounds="lines of up to 4 (5 thorough) characters out of a, b, blank, colon and escaped tab, up to 4 lines in a file or spread over 2 or 3 files of a directory listed in another order, words known: a, ab, b and one written with an escape, ids fixed by the word file or arbitrary; up to 120 lines of up to 300 words out of 60 to 70000, one of which is any of ten at any of nine places; vectors of 2, 100, 101 and 250 elements over 3 embeddings of 2 or 3 components of 2 or 3 bits.",
    outside="other characters, other long lines, compressed input of other than stored blocks; the pool with more than one thread.")
# ------------------------------------------------------------------ C25
PROPS["C25"] = dict(
    quick=[
        J("h_keys", 2, 2, 3, 1, 3, 0, what="two elements of up to two of three words"),
        J("h_keys", 1, 3, 3, 1, 3, 0, what="up to three terms"),
        J("h_keys", 2, 2, 9, 1, 3, 7, what="seven fixed first words: the limit of eight"),
        J("h_keys", 2, 3, 9, 1, 3, 6, what="six fixed first words"),
        J("h_keys", 2, 2, 3, 2, 2, 0, what="two dimensions"),
        J("h_keys", 40, 2, 12, 1, 3, 9, what="40 elements, two of them arbitrary"),
        J("h_keys", 300, 2, 12, 1, 2, 10, what="300 elements, two of them arbitrary"),
        J("h_keys", 2, 2, 3, 1, 3, 0, flavour="rel", what="without debug assertions"),
    ],
    thorough=[
        J("h_keys", 3, 2, 3, 1, 3, 0, what="three elements"),
        J("h_keys", 2, 3, 3, 2, 3, 0, what="two dimensions, three terms"),
        J("h_keys", 2, 2, 12, 1, 4, 9, what="nine fixed first words"),
    ],
    checks={1: "one key per element", 2: "keys compare as the ids of up to eight terms of largest norm, largest first, padded with 0"},
    bounds="1 to 3 elements of up to 3 arbitrary terms besides 0, 6, 7 or 9 fixed ones (two such among 40 or 300 elements), out of 3 words with components of 2 to 4 bits in 1 or 2 dimensions whose norms differ.",
    outside="words of equal norm (nothing is promised about their order); more words.")

# ------------------------------------------------------------------ C23
PROPS["C23"] = dict(
    quick=[
        J("h_layers", 16, 20, 1500, 0, what="any number of elements below 65536, the default multiplier", steps=30_000_000),
        J("h_layers", 12, 40, 1000, 0, what="multiplier 10", steps=30_000_000),
        J("h_layers", 12, 40, 200, 0, what="multiplier 2", steps=30_000_000),
        J("h_layers", 12, 40, 300, 0, what="multiplier 3", steps=30_000_000),
        J("h_layers", 12, 40, 500, 0, what="multiplier 5", steps=30_000_000),
        J("h_layers", 12, 30, 130, 0, what="multiplier 1.3", steps=30_000_000),
        J("h_layers", 10, 20, 105, 0, what="multiplier 1.05", steps=30_000_000),
        J("h_layers", 12, 30, 250, 0, what="multiplier 2.5", steps=30_000_000),
        J("h_layers", 12, 45, 2000, 0, what="multiplier 20", steps=30_000_000),
        J("h_layers", 10, 20, 1000, 1, what="the expected number of elements, multiplier 10", steps=30_000_000),
        J("h_layers", 10, 20, 300, 1, what="the expected number of elements, multiplier 3", steps=30_000_000),
        J("h_layers", 8, 10, 200, 0, flavour="rel", what="without debug assertions", steps=30_000_000),
    ],
    thorough=[
        J("h_layers", 16, 60, 1500, 0, what="60 elements indexed", steps=30_000_000),
        J("h_layers", 16, 60, 1000, 0, what="multiplier 10", steps=30_000_000),
        J("h_layers", 16, 40, 200, 0, what="multiplier 2", steps=30_000_000),
        J("h_layers", 16, 40, 300, 0, what="multiplier 3", steps=30_000_000),
        J("h_layers", 14, 40, 700, 0, what="multiplier 7", steps=30_000_000),
        J("h_layers", 12, 120, 1000, 0, what="120 elements indexed", steps=30_000_000),
        J("h_layers", 10, 400, 2000, 0, what="400 elements indexed", steps=30_000_000),
        J("h_layers", 14, 40, 1000, 1, what="the expected number of elements", steps=30_000_000),
        J("h_layers", 14, 30, 110, 0, what="multiplier 1.1", steps=30_000_000),
    ],
    checks={1: "as many elements are indexed as asked for", 2: "layers start at 1 and never shrink", 3: "a layer is at most about the multiplier times the one before", 4: "no layer exceeds the number of elements", 5: "no more layers than needed", "hang": "building ends"},
    bounds="any number of elements below 2^16 (2^12 for most multipliers), the multipliers 1.05, 1.3, 2, 2.5, 3, 5, 10, 15 and 20 (7, 1.1 thorough); the layers are observed while the first 10 to 60 (400 thorough) elements are indexed, so the final layer is seen for that many elements.",
    outside="larger numbers of elements; layers beyond the first indexed ones.",
    assumptions=["logarithm and power are those of the host's libm (evaluated for every value of the number of elements, as tables)",
                 "memory reserved for a planned number of elements is given the largest planned size"])

NOT_APPLICABLE = {}
