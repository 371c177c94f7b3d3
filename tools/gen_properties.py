#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
L, I, R, O = "src/lib.rs", "src/iter.rs", "src/generic_impl/rope.rs", "src/generic_impl/ord.rs"
G, F, E = "src/generic_impl/gap_buffer.rs", "src/generic_impl/len_finder.rs", "src/rle.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

HIST = ["histories", "inputs"]
p("C01", "An inserted element lands exactly at the requested position",
  "After inserting one element at a cursor, at a queried position, at the front or at the back, the tree's content in order is the previous content with the new element spliced in at exactly that position, and nothing else is lost, duplicated, altered or reordered. This holds whether the element is merged into a neighbour, absorbed by the target element, splits the target element, or becomes an element of its own, and at every tree size. The cursor returned by the insertion addresses the first unit of the inserted data.",
  HIST, "every insertion history, every element kind (mergeable, absorbing, unmergeable, zero-length), every cursor position including element boundaries and interior offsets, every tree shape",
  "The suite inserts through Rope and RangeNumMap at a handful of positions; splitting inside an element whose parent node is one child short of full, splitting at the root, or merging on one side happen at specific shapes that the sampled histories rarely reach and whose result (content, cursor) is not asserted.",
  [L], [("insert_by_path", L), ("split_leaf_if_needed", L), ("push / prepend", L), ("split / split_root", L)],
  [dict(name="leaf sequence", meaning="elements in tree order", where="BTree.leaf_nodes ordered by BTree.in_nodes children")],
  ["BTree::insert, insert_by_path, push, prepend and a full in-order dump"])
p("C02", "Bulk insertion and bulk construction preserve the given order",
  "Inserting a batch of elements at a cursor (or into an empty tree) splices exactly the concatenation of the batch, in the given order, at that position; collecting an iterator into a tree yields exactly the iterator's elements in order. Adjacent mergeable elements may be merged, but no unit of content is lost, duplicated or reordered, and the resulting tree is as usable as one built by single insertions.",
  HIST, "every batch (lengths 0, 1, many; any pattern of mergeable neighbours), every cursor in every tree, the empty tree, every iterator length",
  "Bulk insertion is exercised only through Rope text inserts whose chunks never merge with each other, and never on an empty tree; collecting is tested for one length.",
  [L], [("insert_many_by_cursor", L), ("merge_adj", L), ("create_subtrees_from_elem", L), ("FromIterator for BTree", L)],
  observe=["BTree::insert_many_by_cursor, FromIterator and a full in-order dump"])
p("C03", "Draining removes exactly the range and yields it once, in order",
  "Draining a range yields exactly the content between its two ends, in order and each unit once, and afterwards the tree holds exactly the content outside the range, in order. This holds for every range: empty, inside one element, across any number of nodes and levels, up to either end, the whole tree, or on an empty tree; and regardless of how much of the drain is consumed before it is dropped.",
  HIST, "every tree shape, every pair of cursors start <= end, every number of consumed items before the drop",
  "The suite drains fully from two fixed ranges and through Rope deletes on trees of at most two levels; the start and end nodes meeting at different levels, emptied ancestors, zero-length elements at the border and unconsumed drains are not sampled.",
  [I, L], [("Drain::new / next / drop", I), ("seal / handle_lack_on_path_to_leaf", I), ("filter_deleted_children, purge", L)],
  observe=["BTree::drain, drain_by_query, iter::Drain and a full in-order dump"])
p("C04", "Removing an element removes that element and nothing else",
  "Removing an element through a live cursor returns exactly that element and leaves all other content in order and unchanged, whatever rebalancing the removal triggers. Removing through a handle whose element is already gone returns nothing and changes nothing.",
  HIST, "every element of every tree shape, including the last one, and removal sequences that empty nodes at several levels; live and dead handles",
  "Removals are tested through a set with one random seed and final-state checks; which element is returned and the content in between are not asserted.",
  [L], [("remove_leaf", L), ("remove_internal_node", L), ("handle_lack_recursively / handle_lack_single_layer", L), ("try_reduce_levels", L)],
  observe=["BTree::remove_leaf, get_elem and a full in-order dump"])
p("C05", "A range update applies to exactly the covered content",
  "Updating between two cursors applies the given function exactly once to every unit of content in the range and to nothing outside it, splitting the border elements at the range ends and dropping elements the function empties. Content outside the range, and the order of everything that remains, are unchanged.",
  HIST, "every tree shape, every pair of cursors start <= end (same element, element borders, interior offsets, ends of the tree, zero-length ranges), functions that modify, do nothing, or empty elements",
  "The repository itself marks this operation as needing better test coverage; the range-map tests use aligned ranges on small maps.",
  [L], [("update", L), ("split_leaf_if_needed", L), ("update_dirty_cache_map", L)],
  observe=["BTree::update and a full in-order dump"])
p("C06", "A single-element update replaces that element in place",
  "Updating one element, addressed by handle or by search, leaves in its place exactly what the update left there followed by the additional elements it returned, in that order, with empty pieces dropped and all other content untouched. When nothing is left the element disappears and the result says the handle is no longer valid; otherwise it says it is.",
  HIST, "every element of every tree shape; updates that modify, empty, or split the element into up to three parts, any of which may be empty; updates that decline to change anything",
  "Used only through Rope edits that fit one chunk; node splits caused by returned elements, merges into the following element, and removals that cascade over several levels are not asserted.",
  [L], [("update_leaf", L), ("update_leaf_by_search", L), ("split_node / inner_insert_node / split_root", L)],
  observe=["BTree::update_leaf, update_leaf_by_search and a full in-order dump"])
p("C07", "Updating many sub-ranges of many elements touches exactly them",
  "Given a set of (element, sub-range, argument) triples, every unit of content is updated once for each triple whose sub-range covers it, with that triple's argument, and units covered by none are unchanged. Order and all other content are preserved however the sub-ranges overlap, touch or repeat and in whatever order they are given.",
  ["inputs", "histories"], "every tree, every finite set of non-empty sub-ranges over its elements (overlapping, nested, adjacent, identical, whole-element)",
  "No test calls this operation at all.",
  [L], [("update_leaves_with_arg_in_ranges", L), ("update_dirty_cache_map", L), ("insert_by_path", L)],
  observe=["BTree::update_leaves_with_arg_in_ranges and a full in-order dump"])
p("C08", "Every summary equals what its content yields, after every mutation",
  "After any mutating operation, the summary stored for every element, for every subtree and for the whole tree equals the one computed from scratch from the content beneath it. This holds both for element types maintained by differences and for those recomputed, and regardless of how the history mixed insertions, updates, drains, removals and bulk operations.",
  HIST, "every history of mutating operations, summaries with several components, difference-maintained and recomputed",
  "The consistency checker runs at the end of a few fixed histories over a one-number summary; a wrong difference is compensated or hidden by the next from-scratch recomputation.",
  [L, I], [("recursive_update_cache / recursive_update_cache_with_diff", L), ("update_dirty_cache_map", L), ("update_leaf_by_search", L), ("Drain::drop", I), ("split_node", L), ("handle_lack_single_layer", L)],
  [dict(name="caches", meaning="summary of each child and of the root", where="Node.children[].cache, BTree.root_cache")],
  ["BTree::root_cache and the child summaries any query receives"])
p("C09", "The tree is always well formed and leaks no nodes",
  "Between operations all elements lie at the same depth, every internal node except an empty root has at least one child and room for another, every element is reachable from the root exactly once and links back to the node that holds it, and the number of allocated nodes equals the number of reachable ones. In particular every tree that a history produces can take any further valid operation.",
  HIST, "every history of public operations, trees of one to many levels",
  "The checker is run at the end of fixed histories, does not look for unreachable nodes, and its occupancy checks are commented out.",
  [L, I], [("split_node / split_root / inner_insert_node", L), ("handle_lack_single_layer", L), ("try_reduce_levels", L), ("Drain::drop", I), ("FromIterator / create_subtrees_from_elem", L)],
  [dict(name="node arenas", meaning="allocated internal and leaf nodes", where="BTree.in_nodes, BTree.leaf_nodes")],
  ["a custom Query receiving every child list, LeafNode::parent, BTree::node_len, BTree::check"])
p("C10", "Height stays logarithmic and space proportional",
  "The height of the tree stays logarithmic in the largest number of elements it has held and the number of internal nodes stays proportional to the current number of elements, whatever mix of insertions, removals and drains produced it: deletions merge or refill sparse nodes and drop levels that have become unnecessary. A tree with a single remaining chain above its elements is collapsed.",
  HIST, "every history of insertions and removals at adversarial positions (front, back, node borders, alternating), followed by shrinking to few elements",
  "One test prints the depth after ascending insertions and asserts nothing; no test bounds node count after deletions.",
  [L, I], [("handle_lack_single_layer / pair_neighbor", L), ("try_reduce_levels", L), ("seal", I), ("split_node", L)],
  observe=["BTree::depth, node_len and the child lists any query receives"])
p("C11", "Position lookup finds the one element covering the position",
  "For every position less than the total length, looking it up returns the element that covers it, the offset of the position inside that element, and reports it found; zero-length elements never capture a position. A position at or past the end resolves to the last element with the remaining offset and is reported not found, and an empty tree yields no result. Looking up both ends of a range gives the same two answers.",
  ["inputs", "histories"], "every position in every tree that a history can produce, including trees with zero-length elements, and lookups by a second measure",
  "Lookups are sampled through set/get of small maps; the offset, the slot reported by the finder and positions at node borders of multi-level trees are not enumerated.",
  [F, L], [("LengthFinder::find_node / confirm_elem", F), ("query_with_finder_return / range", L)],
  observe=["BTree::query, range, query_with_finder_return"])
p("C12", "The summaries visited before a cursor add up to its prefix",
  "Visiting the summaries that precede a cursor reports summaries whose total equals the content strictly before the cursor's element, then that element with the cursor's offset; together they determine the cursor's position and invert position lookup. A subtree lying wholly before the cursor is reported as one summary.",
  ["inputs", "histories"], "every cursor in every tree that a history can produce",
  "One helper checks this for a few small ropes of at most two levels.",
  [L], [("visit_previous_caches", L), ("get_path", L)],
  observe=["BTree::visit_previous_caches"])
p("C13", "Cursor comparison and navigation agree with element order",
  "Comparing two cursors gives the order of their elements and, within an element, of their offsets: a total order equal to iteration order. Next and previous move by exactly one element and are absent only at the ends; preferring left or right changes only which side of a border a cursor names; advancing by one moves exactly one unit of content forward across any borders and zero-length elements, or reports the end.",
  ["inputs", "histories"], "every pair of cursors in every tree that a history can produce, including end-of-element cursors and first/last children at every level",
  "Comparison is tested on one ascending set of 100 keys; advancing and side preference have no test.",
  [L], [("compare_pos", L), ("next_same_level_in_node / prev_same_level_in_node", L), ("prefer_left / prefer_right", L), ("shift_path_by_one_offset", L), ("update_children_parent_slot_from", L)],
  observe=["BTree::compare_pos, next_elem, prev_elem, prefer_left, prefer_right, shift_path_by_one_offset, first_leaf, last_leaf, start_cursor, end_cursor"])
p("C14", "Iteration visits every element in range once, in order",
  "Full iteration yields every element exactly once in tree order. Range iteration yields exactly the elements from the start cursor's to the end cursor's, in order, marks the start offset on the first and the end offset on the last and nothing on those between, and leaves out an end element that an exclusive range does not enter; unbounded sides mean the ends of the tree, and an empty tree yields nothing.",
  ["inputs", "histories"], "every tree a history can produce (including empty), every pair of cursors and every kind of range bound",
  "Full iteration is compared on a few trees; no test calls range iteration.",
  [L, I], [("iter / iter_range / _iter_range", L), ("Iter::next", I), ("next_sibling, first_path, last_path", L)],
  observe=["BTree::iter, iter_range"])
p("C15", "Filtered iteration and update reach exactly the accepted elements",
  "Filtered iteration yields, in order, exactly the elements for which the filter accepts the element's own summary and those of all subtrees containing it, each with the accumulated measure of everything before it, skipped parts included. The filtered update applies its function once to each such element, offers the filter each summary of every entered subtree once, and touches nothing else.",
  ["inputs", "histories"], "every filter over summaries (monotone or not), every tree a history can produce",
  "No test calls either operation.",
  [L], [("iter_with_filter", L), ("update_cache_and_elem_with_filter", L)],
  observe=["BTree::iter_with_filter, update_cache_and_elem_with_filter"])
p("C16", "Element handles stay valid and never refer to another element",
  "A handle keeps denoting the same element, through any operations and rebalancing elsewhere, until that element is removed; when its element is split it keeps the left part, and when content is merged into it it keeps what it had. Once its element is removed a handle resolves to nothing forever, even after new elements are created.",
  HIST, "every history, every handle ever returned, resolved at any later time",
  "No test keeps a handle across operations.",
  [L], [("leaf arena with generations", L), ("split_leaf_if_needed / LeafNode::split", L), ("handle_lack_single_layer (leaf parents)", L), ("try_reduce_levels / reset_children_parent_pointer", L)],
  observe=["BTree::get_elem on every handle ever seen, cursors returned by operations"])
p("C17", "Operations report every element they create",
  "Every element handle that comes into existence during a single-element insertion, a range update or an element update is reported to the caller: as the returned cursor or in the returned list of new elements. The report names no handle that never existed in the tree, so a caller can keep an index from content to handles current.",
  HIST, "every insertion, range update, element update and multi-range update in every tree shape",
  "No test looks at the returned lists.",
  [L], [("SplittedLeaves", L), ("insert_by_path, update, update_leaf, update_leaf_by_search", L), ("update_leaves_with_arg_in_ranges", L)],
  observe=["return values of the operations against the set of handles before and after"])
p("C18", "A clone is independent and clearing yields a fresh tree",
  "A clone has the same content, summaries and handles as its source at that moment, and no later operation on either changes the other in any observable way. Clearing leaves a tree that behaves exactly like a new one.",
  HIST, "every tree a history can produce, every pair of later histories on the two copies",
  "No test clones a tree; clearing is tested once with two inserts.",
  [L], [("Clone for BTree / Node / Child", L), ("clear", L)],
  observe=["two trees driven side by side with full dumps of both"])
p("C19", "The ordered map is a map",
  "After any sequence of inserts and deletes, iterating the map yields exactly the key-value pairs of the corresponding mathematical map in strictly increasing key order, the length is their number, and emptiness agrees with it. Inserting an existing key replaces its value; deleting a key returns its pair if and only if it was present, and deleting an absent key changes nothing.",
  HIST, "every sequence of inserts (new and existing keys) and deletes (present and absent keys) at every size",
  "One random insert run and one delete run with present keys only; values are never compared.",
  [O, L], [("OrdTreeMap::insert / delete / iter / len", O), ("OrdTrait::find_node / confirm_elem / calc_cache_internal", O)],
  observe=["OrdTreeMap::insert, delete, iter, iter_key, len, is_empty"])
p("C20", "The ordered set is a set",
  "After any sequence of inserts and deletes, iterating the set yields exactly the members in strictly increasing order, each once, and length and emptiness agree with that. Deleting reports true exactly when the member was present, and inserting a present member or deleting an absent one changes nothing.",
  HIST, "every sequence of inserts and deletes of present and absent members at every size",
  "The fuzz target deletes only present members and is not part of the suite; the unit tests use one seed.",
  [O, L], [("OrdTreeSet::insert / delete / iter / len", O)],
  observe=["OrdTreeSet::insert, delete, iter, len, is_empty"])
p("C21", "The rope is a text",
  "After any sequence of inserts at byte positions and deletes of byte ranges, the rope's text equals that of a plain string under the same edits, and its reported length and emptiness agree with it. This holds for text of any length relative to the internal chunk size, for every locality pattern of edits, for every form of range including ones reaching past the end, for multi-byte characters, and after clearing.",
  HIST, "every sequence of inserts (empty, short, longer than several chunks), deletes and clears with any locality",
  "Eight recorded fuzz histories with at most three-character inserts; long inserts are tested at increasing positions only, and clearing is never preceded by located edits.",
  [R, G, L, I], [("Rope::insert / delete_range and its remembered edit cursor", R), ("GapBuffer", G), ("update_leaf, update_leaf_by_search, insert_many_by_cursor", L), ("Drain", I)],
  observe=["Rope::to_string, len, is_empty, check"])
p("C22", "Every valid operation completes, at every size and boundary",
  "No operation called with valid arguments panics, aborts or fails to terminate, in any tree a history can produce: the empty tree, a single element, element and node borders, the ends of the tree, empty ranges and full ranges included.",
  HIST, "every history of valid calls over all public operations of the tree, the map, the set and the rope",
  "The fixed histories avoid empty ranges at the end of the tree, empty trees and bulk insertion into an empty tree.",
  [L, I, R, O, G, F], [("all public operations", L), ("Drain::drop", I), ("Rope", R), ("OrdTreeMap", O)],
  observe=["return of every call"])
p("C23", "Slicing helpers partition an element exactly",
  "Slicing by any kind of range bound yields exactly the units in that range, splitting leaves the left part and returns the right part, and updating a sub-range leaves in place and returns in order pieces that together are the original content with the function applied exactly to the units in the sub-range and to no others. An empty sub-range changes nothing.",
  ["inputs"], "every element length, every range and every combination of range-bound kinds",
  "Only the gap buffer's own slice is tested, once; the default helpers that user element types inherit are not.",
  [E, G], [("Sliceable::slice / slice_ / split / update_with_split", E), ("GapBuffer::_slice / slice_ / split", G)],
  observe=["the trait's provided methods on a user element type; rope edits for the gap buffer"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
