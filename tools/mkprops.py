import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
T="src/tree/mod.rs";R="src/tree/tree_remove.rs";L="src/tree/leaf_node.rs";I="src/tree/inner_node.rs";V="src/tree/node_stores/vec_backed.rs"
SMALL="cfg(verif_small_nodes) shrinks the node capacity so that deep trees fit in the bounds"
p("C01","The map behaves as an ordered map for every history of operations",
 "After any history of inserts, removals, lookups and in-place value updates, a lookup of any key (by owned or borrowed form) returns exactly the value most recently stored under that key and nothing for keys never stored or removed. Insert returns the value it replaced or nothing, removal returns the value it removed or nothing, a mutable lookup changes only that one entry, and the reported length is the number of distinct keys present. No valid operation panics or fails to terminate.",
 ["inputs","histories"],"every sequence of insert/remove/get/get_mut with every choice of keys, on trees of every shape",
 "Unit tests insert one shuffled range and remove all of it; which rotation/merge/split case is hit, with which key position relative to separators that may no longer be present in any leaf, depends on the history.",
 [T,R,L,I,"src/tree/slice_utils.rs",V,"src/map.rs"],
 [("descend and insert, split propagation","BPlusTree::insert / insert_inner / insert_leaf"),("leaf and inner split","LeafNode::split_new_leaf, InnerNode::split"),("delete with rotate or merge","tree_remove.rs remove_by_ref, handle_leaf_under_size, handle_inner_under_size"),("binary search","LeafNode::locate_slot, InnerNode::locate_child")],
 [("root / len","root node id and number of entries",T),("separator keys","lower bound of each right subtree, may be stale",I)],["BPlusTreeMap","BPlusTree","BPlusTreeSet"],SMALL)
p("C02","Borrowed iteration yields every entry once, in order, from both ends",
 "Iterating a map, tree or set by reference yields exactly the current entries in strictly ascending key order, each once; taking items from the back yields them in descending order, and any interleaving of front and back steps partitions the entries without repetition or omission. Before every step the reported remaining length equals the number of entries still to be yielded, and once exhausted the iterator keeps returning nothing.",
 ["inputs","histories"],"every tree content/shape and every interleaving of next and next_back",
 "Tests iterate purely forward or purely backward on one shape; the contract is over all interleavings of both ends and all leaf boundaries.",
 ["src/tree/iterator.rs","src/map.rs","src/set.rs",L],
 [("front cursor over the leaf chain","Iter::next"),("back cursor over the leaf chain","Iter::next_back"),("leaf chain links maintained by split/merge/bulk load","split_new_leaf, merge_right, bulk_load")],
 [("leaf prev/next","doubly linked leaf chain",L)],["iter()"],SMALL)
p("C03","Owned iteration moves every entry out exactly once, from both ends",
 "Consuming a tree or set yields exactly its entries, ascending from the front and descending from the back, each once under any interleaving of both ends, with the reported remaining length exact before every step. Abandoning the iterator at any point releases exactly the entries not yet yielded and everything else the tree owned.",
 ["inputs","histories"],"every tree content/shape, every interleaving of next and next_back, every point of abandonment",
 "Tests consume a 10-entry single-leaf tree entirely from one end or drop it at once; cross-leaf and mixed-end consumption with partial drop is not exercised.",
 ["src/tree/iterator.rs",T,L],[("two-ended consumption","IntoIter::next / next_back"),("drop drains the rest","Drop for IntoIter"),("tree drop goes through the same path","Drop for BPlusTree")],None,["into_iter()"],SMALL)
p("C04","Every key, value and augmentation is released exactly once; memory safety",
 "For any sequence of operations on keys, values and augmentations that own resources, everything handed to or created by the tree is either returned to the caller or released exactly once by the time the tree and its iterators are gone: nothing leaks, nothing is released twice, and nothing uninitialised, freed or out of bounds is ever accessed.",
 ["inputs","histories"],"every history of operations over heap-owning key, value and augmentation types, every tree shape, every point at which the tree is dropped",
 "The drop test uses one ascending history with a dummy augmentation and counts only totals; a double release in one rotation or merge case, or of an augmentation, needs that exact history and an owning type.",
 [L,I,"src/tree/slice_utils.rs",R,"src/tree/iterator.rs","src/tree/bulk_load.rs",T],
 [("moves between nodes as raw bit copies","slice_insert / slice_remove / move_to_slice"),("no Drop on leaves, Drop on inner nodes","LeafNode, InnerNode::drop"),("tree drop drains entries","Drop for BPlusTree / IntoIter")],None,["heap allocations and frees, drop calls"],SMALL)
p("C05","Bulk loading equals inserting one by one and gives a fully working tree",
 "Building a map, set or tree from any sequence of entries gives the same contents as inserting them one by one, the last of several entries with equal keys winning, with correct length, order, lookups and augmentations. Any later operation on such a tree behaves as on a tree grown by insertion and never panics.",
 ["inputs","histories"],"every number of entries, every duplicate pattern, every order for collecting constructors, every later operation",
 "Tests bulk-load 400 entries (7 leaves) and only read; the number of entries decides the shape of every layer and the tail nodes, and later removals from the tail are never tried.",
 ["src/tree/bulk_load.rs","src/map.rs","src/set.rs",L],[("leaf filling and layering","BPlusTree::bulk_load, build_inner_layer"),("dedup keeping last","DeDupKeepLast"),("stable sort in FromIterator","map.rs / set.rs from_iter")],None,["FromIterator, bulk_load"],SMALL)
p("C06","Counting augmentation gives exact order statistics",
 "With the counting augmentation, after any history the total equals the number of entries; looking up by index i returns the i-th smallest entry, or nothing when i is out of range, mutable lookup by index reaches the same entry and removal by index removes and returns exactly it. The rank of any key is the number of smaller keys, flagged as present or absent correctly.",
 ["inputs","histories"],"every history, every index, every key present or absent",
 "Tests check ascending insertion of 498 keys without later removals; counts must survive every split, rotation, merge and level change.",
 ["src/augment/count.rs",T,R,I],[("augmentation recomputed on the path","new_augmentation_for_id, set_augmentation"),("index descent","get_ref_by_augmentation, locate_in_inner/leaf"),("rank fold","rank_by_augmentation, fold_inner/fold_leaf")],
 [("per-child augmentations","summary of each child subtree",I)],["get_by_augmentation, rank_by_augmentation, root_augmentation, remove_by_augmentation"],SMALL)
p("C07","Group augmentation gives exact group counts, sizes, search and rank",
 "With the grouping augmentation over keys ordered by group, after any history the group count is the number of distinct groups present and the group-size visit returns the exact number of entries of any group (zero when absent). Lookup, mutable lookup and removal by (group, offset) reach exactly the offset-th entry of that group or nothing, and the rank of any key is its group together with the number of smaller keys in that group, flagged present or absent correctly.",
 ["inputs","histories"],"every history, every assignment of keys to groups, every (group, offset) query and every key",
 "Tests use at most two groups per leaf and two tree levels; the summaries are merged across leaves and levels and depend on how groups straddle node boundaries.",
 ["src/augment/group.rs",T],[("leaf summary","GroupCount::from_leaf"),("merging of summaries","GroupCount::merge_with"),("search and rank folds","locate_in_inner, locate_in_leaf, fold_inner, fold_leaf"),("group size visit","ExtractGroupSize")],None,["root_augmentation, get_by_augmentation, rank_by_augmentation, descend_visit"],SMALL)
p("C08","User-defined augmentations always summarise exactly the current contents",
 "For any user-defined augmentation (including non-commutative ones and ones depending on values), after every insert, overwrite, removal, removal by query, bulk load and clear, the root summary equals the one computed directly from the current entries in order, and the summaries a descending visitor sees for each child equal those computed from that child's entries.",
 ["inputs","histories"],"every history, every key position, any summary function that is a fold over the ordered entries",
 "Tests only compare a commutative count at the root; stale or misplaced summaries of siblings show up only for order- or value-sensitive summaries after particular rotations, merges and splits.",
 [T,R,I,"src/tree/bulk_load.rs","src/augment/mod.rs"],[("recompute on ascent","insert_inner, remove_by_ref"),("recompute in rotate/merge","tree_remove.rs"),("carry through split","InnerNode::split/insert_at")],None,["root_augmentation, descend_visit"],SMALL)
p("C09","Cursors stay meaningful under any later modification",
 "A cursor holds a key and no borrow: after any sequence of modifications to the tree, its value is the current value of that key or nothing if absent, moving next (prev) gives the smallest present key above (largest below) the cursor's key with its current value, or nothing if there is none. Cursors created at the first or last entry point to the minimum or maximum, and there is none on an empty tree.",
 ["histories","inputs"],"every history between creating and using a cursor, every cursor key present, removed or never present",
 "Tests follow one random interleaving with removals only; the position hint inside a cursor may refer to a merged, split, refilled or removed node in ways that depend on the history.",
 ["src/tree/cursor.rs",T,L],[("hint validation by leaf key range","Cursor::locate_leaf, LeafNode::in_range"),("offset hint validation","try_data_at with key comparison")],
 [("leaf_id_hint/offset_hint","where the key was last seen; may be stale","src/tree/cursor.rs")],["Cursor, cursor_first, get_cursor"],SMALL)
p("C10","Read-only operations never influence each other, also across threads",
 "The result of any read-only operation depends only on the tree's contents: not on which lookups ran before it, nor on lookups and cursor moves that other threads run on the shared tree at the same time, under any interleaving.",
 ["schedules","histories","inputs"],"every sequence and interleaving of read-only operations between modifications, every key",
 "Lookups share a hidden last-leaf memo written through a shared reference; whether a stale or foreign memo redirects a lookup depends on interleaving and on the modifications in between, which no test varies.",
 [V,T,L],[("last-leaf memo, relaxed atomic","NodeStoreVec::cache_leaf / try_cache"),("range check before use","LeafNode::in_range")],[("cached_leaf","id of the leaf last touched, any thread",V)],["get, get_mut, cursor moves"],SMALL)
p("C11","A clone is equal and fully independent",
 "A cloned tree has the same entries, order, length and augmentations as the original at the time of cloning, and afterwards any operation on either one, including dropping it, leaves the other unaffected.",
 ["inputs","histories"],"every tree, every later history on either copy, every drop order",
 "One test clones one tree and drops it; independence must hold for all shapes (including trees with removed nodes) and later operations.",
 [T,L,I,V],[("deep copy of nodes","Clone for LeafNode/InnerNode/NodeStoreVec")],None,["Clone for BPlusTree"],SMALL)
p("C12","Sets behave as ordered sets and union is the exact ordered merge",
 "A set reports insertion and removal correctly, contains exactly the keys inserted and not removed, and its first and last are its minimum and maximum. The union of any two sets yields every key of either exactly once in ascending order, its size estimate always brackets the true remaining count, and an independent copy of a partly consumed union continues identically.",
 ["inputs","histories"],"every pair of sets (overlapping, nested, disjoint, empty), every point of consumption",
 "One doc test merges {1} and {1,2}; the merge has peeked state whose interplay with exhaustion and size estimates depends on the relative order of all keys.",
 ["src/set.rs","src/merge_iter.rs","src/tree/iterator.rs"],[("merge with one peeked item","MergeIterInner::nexts, lens"),("thin wrapper over the tree","BPlusTreeSet")],None,["BPlusTreeSet, union"],SMALL)
p("C13","Ends, emptiness and clearing are always consistent",
 "First and last are the minimum and maximum entry whenever the tree is non-empty and nothing otherwise; emptiness agrees with the length. A tree emptied by removals, or cleared, answers every query as a new one (nothing found, no cursor, no iteration, default or empty-leaf summaries) and can be used again without restriction.",
 ["inputs","histories"],"every history that empties or nearly empties a tree, every query on it, every later use",
 "Tests check emptiness after one full drain but never query, iterate or place cursors on an empty or emptied tree.",
 [T,"src/tree/cursor.rs","src/tree/iterator.rs","src/map.rs","src/set.rs"],[("root collapse","remove_by_ref root handling"),("replace with fresh tree","BPlusTree::clear"),("leftmost/rightmost descent","first, last, first_leaf, last_leaf")],None,["first, last, is_empty, clear, cursor_first"],SMALL)
p("C14","A descending visitor sees the real tree and controls the descent",
 "A visitor is shown, level by level, strictly ascending separator keys with exactly one more child summary than keys, then the keys and values of exactly the leaf its choices lead to; every choice of valid children is honoured, the leaves reachable partition the entries in order, and separators bound the keys on both sides. Cancelling yields nothing, completing early yields the visitor's result, and choosing a child that does not exist is rejected by a panic rather than undefined behaviour.",
 ["inputs","histories"],"every tree shape, every sequence of visitor decisions including invalid ones",
 "Only two fixed visitors are exercised; arbitrary decision sequences and out-of-range choices are not.",
 ["src/tree/visit.rs",I,L],[("descent loop with index check","BPlusTree::descend_visit")],None,["descend_visit"],SMALL)
p("C15","Trees stay balanced and nodes stay adequately filled",
 "In any tree grown from empty by inserts and removals, all leaves are at the same depth, and every node but the root holds at least a quarter of its capacity, so the depth is logarithmic in the current number of entries and within the fixed traversal limit. A bulk-loaded tree has minimal depth and no inner node without separators.",
 ["inputs","histories"],"every history of inserts and removals, every bulk-load size",
 "Map semantics stay correct even if rebalancing silently stops; only structural checks over all removal patterns show it, and no test looks at occupancy or depth.",
 [R,T,"src/tree/bulk_load.rs","src/tree/consts.rs","src/tree/entry_ref.rs"],[("minimum sizes","LeafNode::minimum_size, InnerNode::minimum_size, consts.rs"),("rotate or merge on underflow","tree_remove.rs"),("traversal stack capacity","MAX_DEPTH, VisitStack")],None,["descend_visit"],SMALL)
p("C16","Misbehaving user callbacks never cause undefined behaviour",
 "With a key ordering that is inconsistent or arbitrary, or an augmentation that returns arbitrary summaries or out-of-range positions, operations may give wrong answers or panic, but never access memory out of bounds, uninitialised or freed, and never release an entry twice.",
 ["inputs","histories","programs"],"every (even inconsistent) sequence of comparison results and every position returned by user augmentation code",
 "The callbacks are safe user code, so soundness must hold against all of them; tests only use well-behaved ones.",
 [T,L,I,R,V],[("positions from binary search stay in range","locate_slot, locate_child"),("positions from user search","get_ref_by_augmentation"),("unchecked node access","NodeStoreVec::get_leaf/get_inner, child_id, data_at")],None,["all operations"],SMALL)
p("C17","Search through user-defined augmentations finds the entry a scan would",
 "For a user-defined searchable augmentation whose summaries and searches are consistent, looking up, mutably looking up or removing by query reaches exactly the entry a linear scan over all entries in order would select, and nothing when the scan selects none; removal returns that entry and leaves all others and the summaries intact, and the user's search code is only ever shown node contents consistent with the tree.",
 ["inputs","histories"],"every history, every query value, for weight-sum and filtered-count secondary indexes",
 "Examples run one scenario each and are not asserted by tests; queries at subtree boundaries after rebalancing are not covered.",
 [T,"src/augment/mod.rs",R],[("query descent with rewritten query","get_ref_by_augmentation"),("removal by located entry","remove_by_ref"),("in-place access","get_mut_by_ref")],None,["get_by_augmentation, get_mut_by_augmentation, remove_by_augmentation"],SMALL)
p("C18","A panicking user callback leaves the tree safe to use and drop",
 "If the user's key comparison, key or augmentation clone, summary function or destructor panics during an operation, the tree can still be dropped or used without undefined behaviour (entries may be leaked).",
 ["inputs","fault_sequences","histories"],"every callback invocation of every operation as the point of the panic",
 "Needs a fault injected at each callback of each operation on each shape; no test injects any.",
 [T,R,L,I,"src/tree/iterator.rs"],[("order of raw moves versus user calls","split_new_leaf/insert_leaf, rotate_*_for_leaf, merge_inner_node")],None,["all operations"],None)
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s); assert len(d["title"])<=80; assert d["statement"].count(". ")<=2,d["id"]
print(len(P))
