#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
HOOK = "cfg(sweep_verif_n=\"..\") selects a small node capacity so that all shapes up to 4 levels are enumerable"
T = "src/tree/"

prop("C01", "Point operations refine an ordered map",
 "For every sequence of insert, get, get_mut, remove, clear, first, last, len and is_empty calls on a BPlusTree or BPlusTreeMap, each call returns exactly what a sorted key-value map returns for the same history: insert and remove hand back the previous value of the key, get and get_mut the current one, first and last the extreme entries, and len the number of distinct keys. A write through get_mut is what later calls see, wherever the entry has moved meanwhile. This holds for every order of keys, whatever node splits, rotations and merges happen in between, and for every key and value type, zero-sized and heap-owning ones included.",
 ["histories", "inputs", "configurations"], "all operation histories, key orders and key/value types",
 "The existing tests run a handful of shuffled fill-and-drain traces; they neither interleave inserts and removes nor compare each answer with a model, and which split, rotation or merge happens at which position and level depends on the history.",
 [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"slice_utils.rs", "src/map.rs"],
 [m("insert descent, leaf and inner split", T+"mod.rs insert_inner/insert_leaf; inner_node.rs split; leaf_node.rs split_new_leaf"),
  m("delete with rotate/merge fix-up", T+"tree_remove.rs"), m("separator-key routing", T+"inner_node.rs locate_child")],
 [s("node contents and separators", "sorted keys per leaf; separators route to the right child", T+"leaf_node.rs, inner_node.rs"), s("len", "number of entries", T+"mod.rs")],
 ["return values of the public calls"], HOOK)

prop("C02", "Borrowed iteration is exact, ordered and double-ended",
 "iter() on a tree, map or set, taken after any history, yields exactly the current entries, in ascending key order from the front and descending from the back. Under any interleaving of next and next_back, and of the adaptors built on them (nth, rev, last, count, a cloned iterator), every entry is yielded exactly once in total, iteration ends when the two ends meet and stays ended. size_hint and len always state the exact number of entries not yet yielded.",
 ["histories", "inputs"], "all histories before the call, all sequences of front/back/nth/clone steps",
 "Tests iterate one untouched tree fully forward and once fully backward; none mixes the two ends, checks the length while stepping, or iterates over leaf links rewritten by merges.",
 [T+"iterator.rs", T+"leaf_node.rs", T+"tree_remove.rs", T+"mod.rs", "src/map.rs", "src/set.rs"],
 [m("leaf chain prev/next links kept by split and merge", T+"leaf_node.rs split_new_leaf/merge_right*, tree_remove.rs"), m("two-ended position plus remaining length", T+"iterator.rs Iter")],
 [s("prev/next", "doubly linked leaf chain", T+"leaf_node.rs")], ["items, size_hint, len"], HOOK)

prop("C03", "Consuming iteration hands out each entry exactly once",
 "into_iter() on a tree or set, taken after any history, moves out exactly the current entries, ascending from the front and descending from the back; under any interleaving of next and next_back each entry is handed out at most once, size_hint states the exact number remaining, and iteration ends when the two ends meet and stays ended. Abandoning the iterator at any point drops exactly the entries not handed out, each once, and leaves the ones handed out untouched.",
 ["histories", "inputs"], "all histories, all front/back step sequences, every point of abandonment",
 "Tests consume or drop a ten-element single-leaf tree wholly from one end; mixing ends, crossing leaves, and abandoning half way are never exercised.",
 [T+"iterator.rs", T+"leaf_node.rs", "src/set.rs"],
 [m("bitwise take of slots guarded by the remaining length", T+"iterator.rs IntoIter; leaf_node.rs take_data"), m("IntoIter::drop drains the rest", T+"iterator.rs")],
 [s("pos/end/len", "the undelivered range", T+"iterator.rs")], ["items, drop counts"], HOOK)

prop("C04", "Cursors stay valid across any mutation",
 "A cursor obtained at any time (cursor_first, Cursor::first or last, get_cursor, next, prev) keeps its key and stays usable after any later inserts, removals, clear or refill of the tree. value and exists report the tree's current entry for that key or its absence; next (with or without value) gives the smallest current key greater than the cursor's key and prev the greatest smaller one, each with its current value, or none when there is none. On an empty tree first and last give no cursor.",
 ["histories"], "all histories between creating a cursor and using it, for every cursor position",
 "Tests follow one shuffled deletion trace with one moving and one fixed cursor; a stale leaf or offset hint matters only for particular later splits, merges, rotations and re-insertions.",
 [T+"cursor.rs", T+"mod.rs", T+"leaf_node.rs"],
 [m("hint validation by leaf key range, then key comparison at the hinted offset, else search", T+"cursor.rs locate_leaf/value/next_with_value/prev_with_value"), m("leaf ids are never reused within a store", T+"node_stores/vec_backed.rs")],
 [s("leaf_id_hint/offset_hint", "possibly stale position", T+"cursor.rs")], ["cursor results"], HOOK)

prop("C05", "Lookups never change what later calls return",
 "Any number of lookups (get, get_mut without writing, contains, rank and query lookups, cursor steps; hits and misses) inserted anywhere in a history leaves the results of every other call in that history unchanged. A lookup or removal through a borrowed form of the key (for example &str for String) returns the same as through the owned form.",
 ["histories", "inputs"], "all histories with lookups of any key inserted at any point, both key forms",
 "A lookup silently changes which leaf is remembered for the next one; whether a remembered leaf is wrong for a later key depends on which structural changes happen in between, which the tests do not enumerate.",
 [T+"mod.rs", T+"node_stores/vec_backed.rs", T+"leaf_node.rs", T+"tree_remove.rs"],
 [m("remembered-leaf shortcut validated by the leaf's key range", T+"node_stores/vec_backed.rs try_cache; leaf_node.rs in_range"), m("cache updates in insert/rotate/merge", T+"mod.rs, tree_remove.rs")],
 [s("cached_leaf", "leaf of the last lookup or update", T+"node_stores/vec_backed.rs")], ["call results"], HOOK)

prop("C06", "Concurrent shared readers get sequential answers",
 "A tree, map or set of Send + Sync keys and values is itself Send and Sync, and while nobody mutates it any number of threads may look up, iterate, rank and step cursors through shared references. Under every interleaving each call returns what it would return alone, and no two threads race on memory. Containers, cursors and iterators whose contents are not Send (not Sync) are not Send (Sync) either.",
 ["schedules"], "all interleavings of the memory operations of concurrent read-only calls",
 "There is no multi-threaded test; lookups through a shared reference write a hidden shared hint, so correctness depends on the interleaving of those writes and reads.",
 [T+"node_stores/vec_backed.rs", T+"mod.rs", T+"cursor.rs"],
 [m("one atomic word as the only shared mutable state, re-validated by each reader after one load", T+"node_stores/vec_backed.rs try_cache/cache_leaf")],
 [s("cached_leaf", "atomic leaf hint", T+"node_stores/vec_backed.rs")], ["results of concurrent reads; data-race reports"], None)

prop("C07", "Bulk construction equals one-by-one insertion",
 "from_iter on a map or set with any sequence of items in any order with any repetitions, and bulk_load with any key-sorted sequence, build a container with the same entries, length and aggregate as inserting the items one at a time, the last item of a repeated key winning. The container so built then answers every later operation - insertions, removals down to empty, iteration, cursors, queries - exactly like the one built by insertion.",
 ["inputs", "histories"], "all item sequences and lengths, all later operation histories",
 "Tests load 400 items and read them back; node boundaries that leave short or lone last nodes, repeats across a leaf boundary, and later removals from loaded trees are not exercised.",
 [T+"bulk_load.rs", T+"leaf_node.rs", T+"inner_node.rs", "src/map.rs", "src/set.rs"],
 [m("packing leaves and inner layers by chunks", T+"bulk_load.rs bulk_load/build_inner_layer"), m("keep-last deduplication over a stable sort", T+"bulk_load.rs DeDupKeepLast; map.rs/set.rs from_iter")],
 [], ["contents and later results"], HOOK)

prop("C08", "A clone is equal and independent",
 "Cloning a tree after any history gives a tree with the same entries, length and aggregate, on which every later operation behaves as on the original. No later operation on, or drop of, either one changes what the other returns, and existing cursors may be used on either.",
 ["histories"], "all histories before and after the clone, on either copy",
 "One test clones a tree to count keys and drops the clone at once; nothing ever operates on a clone or on the original afterwards.",
 [T+"mod.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"node_stores/vec_backed.rs"],
 [m("element-wise clone of live slots only", T+"leaf_node.rs Clone; inner_node.rs Clone; vec_backed.rs Clone")],
 [], ["results on both copies"], HOOK)

prop("C09", "Every key, value and aggregate is dropped exactly once",
 "Over every history of a container's life - overwriting inserts, removals, clear, cloning, bulk loading, consuming, abandoning, dropping - each key, value and augmentation instance it is given or creates is dropped or handed back exactly once, and none is read, compared or cloned before it is initialised or after it is dropped. At any time the container holds exactly len values, and when it and everything it returned are gone, no instance and no heap allocation remains.",
 ["histories"], "all histories, with key, value and augmentation types that own resources",
 "The drop test follows one ascending fill and drain with a trivially-droppable aggregate; slots are moved bitwise by unsafe code in each split, rotate and merge variant, and a duplicate or lost instance shows only for the variant that is wrong.",
 [T+"leaf_node.rs", T+"inner_node.rs", T+"slice_utils.rs", T+"tree_remove.rs", T+"iterator.rs", T+"mod.rs"],
 [m("bitwise slot moves with size bookkeeping", T+"slice_utils.rs, leaf_node.rs, inner_node.rs"), m("InnerNode::drop, BPlusTree::drop via IntoIter", T+"inner_node.rs, mod.rs")],
 [s("size", "number of initialised slots", T+"leaf_node.rs, inner_node.rs")], ["instance registry, heap accounting"], HOOK)

prop("C10", "The tree stays balanced, ordered and filled",
 "After any history every root-to-leaf descent passes the same number of nodes, and at every inner node the keys shown are strictly ascending and separate the entries of neighbouring children (left entries smaller, right entries not smaller). No node exceeds its capacity, and no non-root node falls below a quarter of it (capacity/4 entries in a leaf, capacity/4 keys in an inner node, at least one in any case), except nodes on the right edge of a tree that was bulk loaded. An inner root always has at least two children, so descents stay logarithmic in the number of entries.",
 ["histories"], "all insert/remove/bulk-load histories",
 "Tests compare contents only; a tree that degenerates (missed merge, wrong split point, stale separator) still answers correctly for a while and no test looks at shape.",
 [T+"tree_remove.rs", T+"mod.rs", T+"inner_node.rs", T+"leaf_node.rs", T+"bulk_load.rs", T+"consts.rs"],
 [m("rotate before merge, merge propagation, root collapse", T+"tree_remove.rs"), m("even split", T+"inner_node.rs split, leaf_node.rs split_new_leaf")],
 [], ["nodes shown to a descend visitor along every path"], HOOK)

prop("C11", "Aggregates always equal a recomputation from contents",
 "For any augmentation type, after any history of insert (overwrites included), remove, remove_by_augmentation, clear, bulk load and clone, root_augmentation equals the aggregate recomputed from the current entries in key order, and the augmentation a visitor is shown for a child equals the aggregate of exactly that child's subtree. Values changed through mutable references are excluded, as documented. from_inner is only ever given one more augmentation than keys, and from_leaf as many values as keys.",
 ["histories", "configurations"], "all histories, all augmentation types (decided with the free one, the full entry list)",
 "Tests check the root element count only; a wrong or swapped aggregate deep inside, or one that depends on values or order, goes unnoticed by counting at the root.",
 [T+"mod.rs", T+"tree_remove.rs", T+"inner_node.rs", T+"bulk_load.rs", "src/augment/mod.rs"],
 [m("recompute on the ascent of insert and remove", T+"mod.rs insert_inner; tree_remove.rs"), m("augmentation slots moved with their children", T+"inner_node.rs")],
 [s("augmentations", "one per child", T+"inner_node.rs"), s("root_augmentation", "aggregate of all", T+"mod.rs")], ["root_augmentation, visitor slices"], HOOK)

prop("C12", "Count augmentation is an exact order statistic",
 "With the Count augmentation, after any history, get_by_augmentation(i) is the i-th smallest entry for i < len and none otherwise, and get_mut_by_augmentation(i) gives access to that entry's value. rank_by_augmentation(k) is Ok(number of smaller keys) if k is present and Err(number of smaller keys) if not. remove_by_augmentation(i) removes and returns exactly the i-th entry, or does nothing when there is none; root_augmentation().count() equals len.",
 ["histories", "inputs"], "all histories, all indices and keys",
 "Tests check one ascending fill; offsets inside and across subtrees after rotations and merges, and removal by index, are only sampled.",
 ["src/augment/count.rs", T+"mod.rs", T+"tree_remove.rs"],
 [m("offset descent and rank fold", "src/augment/count.rs"), m("entry reference with visit stack for removal", T+"mod.rs get_ref_by_augmentation, remove_by_augmentation; entry_ref.rs")],
 [], ["query results"], HOOK)

prop("C13", "GroupCount queries are exact",
 "With the GroupCount augmentation and keys whose group is monotone in key order, after any history: group_count is the number of distinct groups; get_by_augmentation((g,i)) is the i-th entry of group g or none, remove_by_augmentation((g,i)) removes exactly it; ExtractGroupSize gives the number of entries of g. rank_by_augmentation(k) is Ok or Err (present or absent) of (group of k, number of entries of that group smaller than k). root_augmentation() is Zero, One or Multiple as there are none, one or more groups, its first group and max_group() being the first and the last group with their exact numbers of entries (none on an empty tree).",
 ["histories", "inputs"], "all histories, all group layouts over nodes, all queries",
 "Tests use few large groups in two-level trees; groups that start, end or lie wholly inside a node, and trees of three levels, decide the merging and rank logic.",
 ["src/augment/group.rs", T+"mod.rs", T+"visit.rs"],
 [m("min/max group summaries merged left to right", "src/augment/group.rs merge_with/from_leaf"), m("search, rank fold, size visitor", "src/augment/group.rs locate_in_*/fold_*/ExtractGroupSize")],
 [], ["query results"], HOOK)

prop("C14", "Queries through a user's augmentation act on the designated entry",
 "For any search augmentation that obeys the trait contract, get_by_augmentation, get_mut_by_augmentation and remove_by_augmentation act on exactly the entry the query designates in the current contents, or report none and change nothing; remove_by_augmentation hands back that key and value and afterwards the container behaves as after remove of that key. Rank lookups fold exactly the subtrees to the left of the key's path, in order, each once.",
 ["histories", "configurations", "inputs"], "all histories, queries and contract-abiding augmentations (value-weighted, filtered, free rank)",
 "Only the examples define own augmentations and they are not run; the child index, query residue and visit stack passed between levels matter only in deeper trees.",
 [T+"mod.rs", T+"tree_remove.rs", T+"entry_ref.rs", "src/augment/mod.rs", "examples/duplicate_key.rs", "examples/augment_even_count.rs"],
 [m("query descent with residue, visit stack", T+"mod.rs get_ref_by_augmentation; entry_ref.rs"), m("rank fold over left siblings", T+"mod.rs rank_by_augmentation")],
 [], ["query results and contents after"], HOOK)

prop("C15", "BPlusTreeSet behaves as an ordered set",
 "For every sequence of insert, remove, contains, clear, first, last, len, is_empty calls and of building from an iterator, each call on a BPlusTreeSet returns exactly what an ordered set returns for the same history; insert and remove report whether the set changed. iter and into_iter list exactly the members in ascending order (descending from the back), and lookups accept borrowed forms of the key.",
 ["histories", "inputs"], "all operation histories",
 "The set has no unit tests, only one-or-two-element doc examples.",
 ["src/set.rs", T+"mod.rs", T+"leaf_node.rs"], [m("set as a tree with unit values", "src/set.rs")], [], ["return values"], HOOK)

prop("C16", "Set union is the sorted merge without duplicates",
 "a.union(&b) yields, for any two sets built by any histories, every member of either exactly once in ascending order and then stays ended. At every step size_hint is a valid bound on what remains (lower never above, upper never below it), a clone continues with the same remaining items, and min, count, last and fold agree with plain stepping.",
 ["inputs", "histories"], "all pairs of sets, all shapes, all steps",
 "One doc example unites {1} with {1,2}; which side is peeked, exhaustion order and equal runs across leaves are not covered.",
 ["src/set.rs", "src/merge_iter.rs", T+"iterator.rs"], [m("peeking merge of two iterators", "src/merge_iter.rs nexts/lens")], [], ["items and bounds"], HOOK)

prop("C17", "A descend visitor walks one faithful root-to-leaf path",
 "descend_visit shows the visitor the nodes of one root-to-leaf path in order: at each inner node its keys and one augmentation per child, then, for the child index the visitor chooses, that child; finally one leaf with its keys and values in order. GoDown reaches exactly the chosen child, Complete(r) ends with Some(r) and Cancel with None without visiting further, the leaf's answer is returned as is, and a child index out of range panics. Taken over all choices, the leaves shown in path order are exactly the current entries in order, and the visit changes nothing.",
 ["histories", "inputs"], "all histories, all visitor decisions at all levels",
 "Two tests use one visitor type in two-level trees; child selection per level, early completion and cancellation are not covered.",
 [T+"visit.rs", T+"inner_node.rs", T+"leaf_node.rs"], [m("descent loop with bounds check", T+"visit.rs")], [], ["slices shown to the visitor and the result"], HOOK)

prop("C18", "A panic in user code never breaks memory safety",
 "If code supplied by the user and called by the container - key comparison, cloning, augmentation computation, a visitor, dropping - panics at any point of any operation and the panic is caught, no key, value or augmentation instance is afterwards dropped twice, or read after being dropped or moved out. Later lookups, iteration, cloning, insertion, removal and dropping of the container stay free of undefined behaviour, do not panic by themselves and never abort the process; its contents may be incomplete, but every entry it still shows is one it was given.",
 ["fault_sequences", "histories"], "every call into user code in every operation from every reachable state, as the one that panics",
 "No test injects a panic; the container moves slots bitwise and updates links, sizes and aggregates in several steps with user calls in between.",
 [T+"mod.rs", T+"tree_remove.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"iterator.rs"],
 [m("order of user calls relative to slot moves", T+"mod.rs insert_leaf, tree_remove.rs")], [], ["instance registry after the caught panic"], HOOK)

prop("C19", "Work is logarithmic, and linear for whole traversals",
 "After any history, one insert, get, get_mut, contains, remove, first, last, len, cursor creation or step (also from a removed key), augmentation query, rank, removal by query or descent executes a number of steps bounded by the node capacity times a height logarithmic in the number of entries, hit or miss, however the tree got its shape; it never grows in proportion to the entries. One step of any iterator or union stays within the same bound, and a whole iteration, union or bulk_load takes a bounded number of steps per entry, from_iter per entry times the logarithm.",
 ["histories", "inputs"], "all histories and sizes, all positions operated on",
 "No test looks at cost; a scan in place of a descent returns the right answer at any size.",
 [T+"mod.rs", T+"cursor.rs", T+"iterator.rs", T+"tree_remove.rs", T+"bulk_load.rs", "src/merge_iter.rs", "README.md"],
 [m("descents, lookup cache, cursor hints", T+"mod.rs, cursor.rs"), m("README: get by order, time complexity is log(n)", "README.md")],
 [], ["executed control-flow edges of the compiled crate per call"], HOOK)

prop("C20", "Storage follows the contents",
 "After any history the heap storage a container holds is that of the nodes its present entries occupy, plus at most two machine words for every node made since it was created or cleared: nodes emptied by merges, by the tree losing a level, by clear or by consuming are released at once. Repeating any sequence of operations that leads back to the same contents any number of times therefore accumulates no nodes, entries or aggregates. Lookups, iteration, cursors, queries, clones and consumed copies that are gone leave nothing behind.",
 ["histories"], "all histories, all cycles of operations repeated",
 "Leaks inside a live container show in no result, and memory checkers see them freed when it is dropped.",
 [T+"tree_remove.rs", T+"mod.rs", T+"node_stores/vec_backed.rs", T+"iterator.rs"],
 [m("nodes taken out of the store when merged or collapsed", T+"tree_remove.rs; node_stores/vec_backed.rs take_*")],
 [], ["bytes held, from a counting allocator"], HOOK)

prop("C21", "Safe use is free of undefined behaviour",
 "Whatever sequence of calls safe code makes on trees, maps, sets, their iterators and cursors - abandoned halfway, kept across later changes, or interrupted by a caught panic in user code - and whatever valid key, value and augmentation types it uses (heap-owning, zero-sized, over-aligned, with forbidden bit patterns, with or without drop code), no step has undefined behaviour. No slot is read as a value before it is written or after its value has moved out, no memory is used after it is freed or replaced, no access is out of bounds, misaligned or overlapping where it must not be, memory is freed with the layout it was allocated with, and nothing is written through a path that is only shared at that time (Tree Borrows). The node-level interface (LeafNode, InnerNode and NodeStore methods called directly) is unchecked and excluded.",
 ["histories", "configurations", "fault_sequences"], "all histories of safe calls, all key, value and augmentation types",
 "Undefined behaviour usually shows nothing: the tests pass with slots read uninitialised, layouts mismatched or shared memory written, until the compiler or the type parameters change.",
 [T+"leaf_node.rs", T+"inner_node.rs", T+"slice_utils.rs", T+"iterator.rs", T+"tree_remove.rs", T+"node_stores/vec_backed.rs", T+"mod.rs"],
 [m("uninitialised slot arrays and bitwise moves", T+"leaf_node.rs, inner_node.rs, slice_utils.rs"), m("unchecked node lookup by id", T+"node_stores/vec_backed.rs get_leaf/get_inner"), m("raw pointers to parent nodes during removal", T+"tree_remove.rs")],
 [s("size", "number of initialised slots", T+"leaf_node.rs, inner_node.rs")], ["an interpreter that checks every step of the crate's MIR"], HOOK)

prop("C22", "Contract-breaking user code never breaks memory safety",
 "If code supplied by the user breaks its contract - key comparisons that contradict themselves, one another or what they said before, keys that clone to something else, bulk_load given unsorted items, a search augmentation that names a child or slot that does not exist or is the wrong one, groups that are not monotone or change from call to call - then any call may panic, give wrong answers, or lose or repeat entries of the order, but no step of it, nor of any later call, nor of dropping the container, has undefined behaviour. No key, value or aggregate is read before it is initialised or after it is dropped or moved out, or dropped twice, no access leaves its node, every call ends, and the process is never aborted.",
 ["histories", "inputs", "fault_sequences"], "all sequences of answers user code may give, at any point of all histories",
 "The tests' types keep every contract; safe traits may be implemented wrongly all the same, and code that skips a check because the order 'guarantees' it passes every test with well-behaved keys.",
 [T+"mod.rs", T+"leaf_node.rs", T+"inner_node.rs", T+"tree_remove.rs", T+"bulk_load.rs", T+"visit.rs", "src/augment/mod.rs", "src/augment/group.rs"],
 [m("slots and child indexes that come from comparisons and from SearchAugmentation, used for unchecked access", T+"mod.rs get_ref_by_augmentation, try_upsert, remove; leaf_node.rs data_at; inner_node.rs child_id"), m("invalid index panics in a visit", T+"visit.rs")],
 [], ["instance registry, poisoned memory, the standard library's checks of unsafe preconditions"], HOOK)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
