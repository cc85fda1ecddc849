"""What each check runs, and how it is described in MANIFEST.json and in the evidence."""

SEQ = "explicit-state model checking of the real code: breadth-first search over all reachable tree states, every operation word after them, lockstep ordered-map oracle"
NOTE = ("Exhaustive within the stated bounds: every reachable state of small-capacity trees under the alphabet, every short "
        "operation word with no merging of states, and every builder x size x drain family at the shipped capacity 64. Trusts the "
        "canonical form (tree shape, keys, separators, what the lookup cache would serve) for merging in the breadth-first part, "
        "and that node code is generic in the capacity (checked at 64 by the families).")
ASSUME = [
    "node code is generic in the capacity: capacities 4 and 8 (cfg sweep_verif) are explored exhaustively, 64 (no hook) by structured families",
    "states with equal shape, keys, separators and lookup-cache behaviour have equal futures (breadth-first part only)",
    "keys follow Ord's contract; bulk_load input is sorted",
]
QN = [4, 8, 64]
TN = [4, 8, 64]


def c(technique, explanation, note=None, n=None, extra=None, **kw):
    d = {"technique": technique, "explanation": explanation, "note": NOTE + (" " + note if note else ""),
         "n": n or {"quick": QN, "thorough": TN}, "assumptions": ASSUME + (extra or [])}
    d.update(kw)
    return d


CHECKS = {
    "C01": c(SEQ, "every (state, operation) pair of insert/overwrite/write/remove/get/clear over a small key domain, all words unmerged, six key/value type pairs including zero-sized and heap-owning ones; the full lookup, first, last, len oracle at every state"),
    "C02": c("explicit-state model checking: at every reachable tree state, depth-first enumeration of every front/back/nth/clone step word of the iterator against a sorted slice",
             "all words over next/next_back (with len, size_hint, nth, last, count, clone and post-exhaustion steps at every prefix) at every reachable state of tree, map and set"),
    "C03": c("explicit-state model checking: at every reachable tree state, every front/back step word of into_iter, abandoned at every prefix, with an instance ledger",
             "all step words and abandonment points of tree and set into_iter at every reachable state; ledger of key and value instances decides who was handed out and who was dropped"),
    "C04": c("explicit-state model checking: cursors of every kind made at every reachable state, carried through every mutation word, judged by successor/predecessor in an ordered map",
             "every cursor position and kind x all following mutation words (unmerged), and cursors of every age along the histories; drains and refills by families"),
    "C05": c("explicit-state model checking of the product of tree state and lookup-cache state; twin runs with and without lookups; owned against borrowed key forms",
             "lookups are letters of the alphabet, so what they leave behind is part of every state; each call is compared with an ordered map, which lookups cannot affect, and borrowed forms are compared with owned ones"),
    "C06": {"engine": "conc",
            "technique": "stateless model checking of the compiled code: all interleavings of the atomic operations of 2-3 reader threads and all stale values relaxed loads may return, under a controlled scheduler, with a happens-before race detector",
            "explanation": "", "n": {},
            "note": "Exhaustive per scenario (a shared container, 2 or 3 threads of 1-3 reads) up to the preemption bound stated there. Modification order is execution order and fences are "
                    "treated conservatively (as synchronising with every earlier fence); compare-exchange does not fail spuriously. The code is the compiler's, instrumented by -Zsanitizer=thread, the runtime is ours.",
            "assumptions": ["the order of stores to one location is the order in which they execute; fences synchronise conservatively; no spurious compare-exchange failure",
                            "nightly code generation with TSan instrumentation has the memory accesses of the source",
                            "contention inside the standard library's own locks is modelled through futex wait and wake"]},
    "C07": c("bounded exhaustive enumeration of bulk inputs (all short item sequences, all sizes, all duplicate patterns) followed by all operation words, against one-by-one construction",
             "bulk_load, map and set from_iter: every item sequence over a small domain, every size up to several levels, then drains, refills and words, against an incrementally built container and an ordered map"),
    "C08": c("explicit-state model checking of pairs (original, clone): clone at every reachable state, every operation word over the two sides, two ordered maps as oracle",
             "both sides of every clone taken at every state are driven through all words and compared with their own reference; aggregates and shapes compared at the moment of cloning"),
    "C09": c("explicit-state model checking with an instance ledger and a counting, poisoning allocator as monitor",
             "every state and operation with tracked keys, values and aggregates: exactly-once drop, no use outside life, len values alive, no heap block left"),
    "C10": c("explicit-state model checking: structural invariant evaluated on the shape of every reachable state, observed through descend_visit",
             "the shape of every reachable state (levels, order, separators, occupancy, leaf chain against descent order)"),
    "C11": c("explicit-state model checking with the free monoid as augmentation: aggregates compared with the list of entries at the root and every node of every reachable state",
             "the aggregate is the list of entries itself, so equality stands for every other augmentation; checked at root and at every child of every state, after every call"),
    "C12": c("explicit-state model checking: every index and every key queried at every reachable state, sorted-list oracle",
             "all order-statistic queries (get, get_mut, remove by index, rank of present and absent keys) at all states, removals as transitions"),
    "C13": c("explicit-state model checking over trees x all assignments of groups to keys: every (group, index) query and every rank at every reachable state",
             "all group layouts over the domain x all reachable states x all queries, present and absent groups, against counting in a sorted list"),
    "C14": c("explicit-state model checking with a free-monoid search augmentation that can designate any entry, list oracle; all query kinds at all reachable states",
             "queries designating every entry from either end, and giving up at every depth, through get/get_mut/remove; contract monitors inside the callbacks"),
    "C15": c(SEQ.replace("ordered-map", "BTreeSet"), "set in lockstep with BTreeSet: all states, all words, borrowed forms, from_iter, iteration and consumption at all states"),
    "C16": c("bounded exhaustive enumeration of all pairs of reachable sets x all step words of the union iterator, sorted-merge oracle",
             "every pair of reachable sets (shape included), the union stepped, sized, cloned and exhausted at every prefix"),
    "C17": c("explicit-state model checking: at every reachable state every decision script of a descend visitor, judged against the tree's entries and aggregates",
             "every choice a visitor can make at every node of every state: nodes shown, cancel, complete, out-of-range index"),
    "C18": c("exhaustive fault enumeration inside explicit-state model checking: every call into user code of every operation at every reachable state is made to panic, instance ledger and aftermath as oracle",
             "for each (reachable state, operation) one execution per call into user code with that call panicking, and on small trees per pair of successive panics; then a full aftermath of lookups, mutations, clone and drop under the instance ledger",
             note="After a panic leaks are allowed; freed memory is poisoned and quarantined, so reads after the end are seen by the ledger rather than by luck.",
             extra=["a panic while another one unwinds aborts by Rust's rules and is not injected"]),
    "C19": c("bounded exhaustive enumeration of histories (builder x thinning x size) x every operation x every probed position, on the compiled code with every executed control-flow edge counted; a bound logarithmic in the size as oracle",
             "the steps of every operation at every position of trees of every building order, thinned and drained, from a few entries to a million, and of every step of every iterator; a count, not a time, so it is exact and repeatable",
             note="Deterministic: the counter is driven by SanitizerCoverage callbacks, so it counts edges of the crate and of the generic library code it instantiates, not memcpy lengths. The bounds leave a factor of 3 to 8 over what the present code needs, and large sizes leave a factor of 10 and more between them and one linear scan.",
             extra=["work done inside precompiled library code (memcpy, allocator) is not counted"]),
    "C20": c("explicit-state model checking with a counting allocator as monitor: every reachable state, and every cycle of operations at reachable states pumped 64 times",
             "the bytes held at every reachable state, and after every word of operations repeated 64 times at every reachable state, against those of the nodes the visitor shows; clear, clones, consumed copies and reads leave nothing",
             note="The set shows no nodes, so for it the fewest-filled tree the entries may occupy is the bound."),
    "C21": {"engine": "miri",
            "technique": "explicit-state model checking of the real code's MIR in an interpreter: transition tours through all reachable small tree states and structured families, every step judged against Rust's rules for undefined behaviour",
            "explanation": "", "n": {},
            "note": "Exhaustive over the transitions between reachable states of the stated key domain at capacity 4, each with one of four type configurations in turn (all four in the thorough tier). The rules are Miri's; "
                    "aliasing is judged by Tree Borrows, the more permissive of the two models, and in a quarter of the workers only in the quick tier. Leaks are C09's, wrong answers and panics are the other properties'.",
            "assumptions": ["Miri's rules are Rust's; aliasing as in Tree Borrows",
                            "user implementations of Ord, Clone and Augmentation are safe code and follow their contracts, except that they may panic",
                            "the documented-as-unchecked node API (LeafNode::data_at, NodeStore::get_leaf with an id of another tree, ...) is not called"]},
    "C22": c("exhaustive fault enumeration inside explicit-state model checking: every answer of user code at every reachable state is replaced by every wrong one, up to two per execution, and every order change; instance ledger and unsafe-precondition checks as oracle",
             "for each (reachable state, operation) one execution per wrong answer (comparison, key clone, search), on smaller trees per pair of wrong answers also across two operations; keys that change their order under every word of mutations; every sequence over four keys bulk loaded; every assignment of groups; an aftermath of lookups, mutations, clone, consumption and drop each time",
             note="The crate is built as for release (its debug assertions and overflow checks off); the standard library's checks of unsafe preconditions are on and abort, which is reported.",
             extra=["an access that stays inside a node and whose result is never looked at is C21's business"]),
}
