#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the list stays easy to edit).
import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

HK="guarded override of the random per-node hash key in src/bdd_node.cpp (LBDD_VERIF_HASHKEYS), so that runs are reproducible and key collisions can be generated"

add("C01","Boolean operations compute the right function",
 "In every sequence of manager operations (variables and negated variables, constants, and, or, xor, negation, if-then-else, lookup of a node by variable and two children; in two-operand, variadic, iterator-range and operator form) the resulting diagram evaluates, under every assignment, to that operation applied to the operands' values. This holds for any operands (constants, equal or complementary operands, sub-diagrams of earlier results, any set of variable indices, variables added at any time) and whatever was computed in the manager before. Operands are never changed by an operation.",
 ["inputs","histories"],"all operation histories over all operand choices, all variable numbers, all assignments",
 "The tests evaluate about ten fixed formulas of 3-5 variables; results depend on what earlier operations left in the shared memo cache and on the order of operands, which only histories reach.",
 ["src/bdd_mgr.cpp","include/bdd_mgr.h","src/bdd_memo_cache.cpp","include/bdd_memo_cache.h","include/bdd_node.h"],
 [("recursive apply with top-variable split","src/bdd_mgr.cpp and_rec/or_rec/xor_rec/ite_rec/negate"),("memo cache keyed by operands and operation","src/bdd_memo_cache.cpp cache_lookup/cache_insert/double_cache"),("range and variadic folds","include/bdd_mgr.h and_rec/or_rec/xor_rec templates")],
 ["node_ref::evaluate","low()/high()/variable() walk of every result"],hook=HK)

add("C02","Diagrams are canonical: equal functions if and only if equal handles",
 "Two handles of one manager compare equal exactly if they denote the same function, by whatever route each was computed. Every diagram is ordered (variables strictly increase along every arc), has no node with identical children and no two nodes with the same variable and children, and so has exactly the nodes of the minimal ordered diagram of its function.",
 ["inputs","histories"],"all pairs of construction routes to a function, all histories",
 "Tests compare two routes for a handful of symmetric formulas; they never build xor results and combine them further, nor check ordering or minimality of results.",
 ["src/bdd_mgr.cpp","src/bdd_var.cpp","src/bdd_node.cpp","include/bdd_mgr.h"],
 [("unique table per variable","src/bdd_var.cpp unique_find/unique_table_lookup"),("choice of the top variable","src/bdd_mgr.cpp and_rec/or_rec/xor_rec/ite_rec")],
 ["node_ref operator==","nr_nodes()","low()/high()/variable() walk"],hook=HK)

add("C03","Garbage collection never changes live diagrams or later results",
 "In every history of operations, dropped handles and garbage collections, each handle still held denotes the same function with the same nodes after a collection as before it. Every operation performed after a collection is again correct and canonical; in particular a function still held under a handle is found again as that same handle, and nothing computed before the collection leads to a reclaimed or wrong node. A collection always terminates.",
 ["histories","configurations"],"all interleavings of operations, handle drops and collections, all distributions of internal hash keys",
 "Only test_bdd_and_or collects garbage, once, on a tiny table at the very end, and it is excluded as flaky; reinsertion, wrap-around, table shrinking and stale memo entries need histories.",
 ["src/bdd_mgr.cpp","src/bdd_var.cpp","src/bdd_memo_cache.cpp","src/bdd_node_cache.cpp"],
 [("removal of dead nodes and rehash/shrink","src/bdd_var.cpp remove_dead_nodes"),("memo purge","src/bdd_memo_cache.cpp purge/can_be_purged"),("collection order","src/bdd_mgr.cpp collect_garbage")],
 ["evaluation and structure of all held handles before and after collect_garbage()","handle equality after recomputation"],
 [("xref","number of references to a node","include/bdd_node.h")],hook=HK)

add("C04","Garbage collection reclaims exactly the unreachable nodes",
 "After a garbage collection the manager holds exactly the two terminals plus every decision node reachable from a handle that still exists, however handles were copied, assigned (also to themselves), moved, swapped, stored in containers, returned or destroyed; with no handle left only the terminals remain. The reference count of a decision node then equals the number of handles on it plus the number of arcs into it from nodes held. A collection never increases the node count, and reclaimed nodes are reused without disturbing live ones.",
 ["histories"],"all histories of handle copies, moves, assignments, drops, operations and collections",
 "The one (excluded) test checks only that the count shrinks; exact accounting over handle histories is never checked.",
 ["src/bdd_node.cpp","include/bdd_node.h","src/bdd_node_cache.cpp","src/bdd_var.cpp","src/bdd_mgr.cpp"],
 [("counting handles","src/bdd_node.cpp node_ref constructors, destructor, assignment"),("counting arcs","src/bdd_node.cpp init_new_node, src/bdd_node_cache.cpp free_node"),("cascade in variable order","src/bdd_mgr.cpp collect_garbage")],
 ["bdd_mgr::nr_nodes()","node_ref::reference_count()"],hook=HK)

add("C05","Node identity survives growth of tables, variables and node storage",
 "While a manager grows, by any number of nodes in total or on one variable and by variables added at any time, the same variable and children always give the same node and different ones give different nodes, the manager's node count is exactly the number of distinct nodes plus two, and earlier diagrams stay intact. This holds for every distribution of the internal hash keys. If the capacity for nodes of one variable is exhausted, the request fails with an exception, and the manager and its existing diagrams remain usable and destructible.",
 ["inputs","histories","configurations"],"all numbers of nodes per variable through every table size, all hash-key distributions, variables added at any point",
 "Tests stay within the smaller table sizes and never look a node up again after a resize; capacity limits are never reached.",
 ["src/bdd_var.cpp","include/bdd_var.h","src/bdd_node_cache.cpp","src/bdd_mgr.cpp"],
 [("doubling and rehash","src/bdd_var.cpp double_cache/new_page/free_page"),("open addressing","src/bdd_var.cpp next_free_slot/unique_table_lookup"),("page lists","include/bdd_var.h unique_table_page_cache, src/bdd_node_cache.cpp")],
 ["bdd_mgr::unique_find","bdd_mgr::nr_nodes","node_ref identity"],hook=HK)

add("C06","Size-limited conjunction is exact and history-independent",
 "The node-limited conjunction returns the conjunction, as the same handle the unlimited conjunction gives, together with its exact number of decision nodes if that number is smaller than the limit; otherwise it returns a null handle and the maximal count. Which of the two happens depends only on the operands and the limit, not on operand order, on earlier computations or on caches. A refused conjunction leaves the manager fully usable: later operations are correct and canonical.",
 ["inputs","histories"],"all operand pairs, all limits (in particular around the exact size), all prior histories",
 "The test tries two limits for one pair of simplices.",
 ["src/bdd_mgr.cpp","include/bdd_mgr.h"],
 [("size accounting and early abort","src/bdd_mgr.cpp and_rec_limited")],
 ["bdd_mgr::and_rec_limited results against and_rec and nr_nodes"],hook=HK)

add("C07","Counting constraints hold exactly when the count does",
 "For every non-empty list of diagrams (variables or arbitrary functions, repeats allowed) and every bound b >= 0, including bounds above the list length: 'all false', 'at least one', 'at most one', 'simplex' (exactly one), 'at least b', 'at most b' and 'cardinality b' evaluate to true exactly on the assignments under which the number of true list members satisfies the named condition. Equivalent constraints are the same handle (for example at-least-(b+1) is the negation of at-most-b).",
 ["inputs"],"all list lengths, all bounds, all member functions, all assignments",
 "Tests cover 2-5 plain variables with bound 2 only.",
 ["include/bdd_mgr.h"],
 [("divide-and-conquer recursion","include/bdd_mgr.h all_false/simplex/at_most_one/at_least/at_most/cardinality")],
 ["evaluation and handle equality of the results"],hook=HK)

add("C08","Renaming variables in a manager is an exact substitution",
 "Copying a diagram to new variables under any order-preserving map of its support (given as an associative map or as a vector; entries outside the support, gaps, overlaps with old variables and variables not yet existing allowed) yields the canonical diagram of the function with each variable replaced by its image. Both map forms agree, missing variables are created, constants map to themselves, the original stays unchanged, and renaming back gives the original handle.",
 ["inputs","histories"],"all diagrams, all strictly increasing maps on their support",
 "Tests rename one 3-variable simplex and shift mrf chains by constants.",
 ["include/bdd_mgr.h"],
 [("postorder copy through the unique tables","include/bdd_mgr.h rebase (two overloads)")],
 ["bdd_mgr::rebase results, nr_variables()"],hook=HK)

add("C09","Queries report the reachable diagram exactly and leave no trace",
 "On every handle, constants included: postorder lists every reachable decision node exactly once after its children; breadth-first order lists every one exactly once by non-decreasing distance from the root, root first; the node count is their number; the variable list is the sorted support; 'exactly one solution' holds iff the function has exactly one satisfying assignment of its support; the depth helper reports the longest path length. A mark set by the user, on one node or on a whole diagram, is seen on exactly those nodes, and unmarking a diagram clears it there. Queries may be repeated, nested among operations and made on overlapping diagrams in any order with the same answers, and change nothing observable.",
 ["inputs","histories"],"all diagrams, all sequences of queries",
 "Tests look at one simplex per traversal, and never at constants or at repeated queries on shared diagrams.",
 ["src/bdd_node.cpp","include/bdd_node.h","src/bdd_node_depth.cpp","include/bdd_node_depth.h"],
 [("mark bits set and cleared by each traversal","src/bdd_node.cpp nr_nodes/nodes_postorder/nodes_bfs/variables/unmark")],
 ["nodes_postorder, nodes_bfs, nr_nodes, variables, exactly_one_solution, marked, mark, unmark, unmark_rec, reference_count, bdd_node_depth::add_node"],hook=HK)

add("C10","Cost follows diagram size, not the number of paths",
 "Manager and collection operations and queries on diagrams with few nodes but exponentially many paths (for example parity or bounded-width diagrams of dozens to hundreds of variables) terminate with correct results in effort polynomial in the node counts of operands and result, never proportional to the number of paths. This covers and, or, xor, negation, if-then-else, limited conjunction, renaming, all queries, and the import, export, conjunction, disjunction with literals, renaming, removal and queries of collections.",
 ["inputs"],"all bounded-width diagrams of up to hundreds of levels, all operations",
 "Tests use simplex and chain diagrams, whose number of paths is small.",
 ["src/bdd_mgr.cpp","src/bdd_collection.cpp","src/bdd_memo_cache.cpp","src/bdd_node.cpp"],
 [("memoisation of operations","src/bdd_memo_cache.cpp"),("generated-node and reduction maps","src/bdd_collection.cpp bdd_and_impl"),("mark bits","src/bdd_node.cpp")],
 ["completion within a CPU budget orders of magnitude above the polynomial cost, and correctness of results"],hook=HK)

add("C11","Import to and export from a collection are lossless",
 "Storing any diagram (constants included) in a collection that already holds anything, and bringing it back by either export route into the same manager yields the same handle, and into another manager the canonical diagram of the same function. The stored copy evaluates identically, is numbered consecutively, and has the diagram's decision nodes plus two; entries already stored, the source diagram and later garbage collections do not affect each other.",
 ["inputs","histories"],"all diagrams, collections of any size, all interleavings of imports, exports and manager operations",
 "Tests round-trip small simplices in nearly empty collections.",
 ["src/bdd_collection.cpp","include/bdd_collection.h","src/bdd_mgr.cpp"],
 [("flattening in reverse postorder","src/bdd_collection.cpp add_bdd"),("rebuild","src/bdd_collection.cpp export_bdd, src/bdd_mgr.cpp add_bdd")],
 ["bdd_collection::add_bdd/export_bdd/evaluate/nr_bdd_nodes, bdd_mgr::add_bdd"],hook=HK)

add("C12","Collection conjunction equals the conjunction of its operands",
 "Conjoining any two, or any range of up to 49, stored diagrams (repeats, constants, nested, disjoint or contradictory supports allowed) appends one entry that is the reduced ordered diagram of their conjunction: evaluation, node count and support are those of the canonical diagram, and exporting it gives the handle the manager's conjunction gives. Constant results are stored as proper constants. The operands and all other entries stay unchanged, and a range of one entry returns that entry.",
 ["inputs","histories"],"all tuples of stored diagrams, all arities 1..49, all assignments",
 "Tests conjoin two or three simplices or covering constraints, and evaluate the all-zero assignment only (their loops run once).",
 ["src/bdd_collection.cpp","include/bdd_collection.h"],
 [("melding with reduction","src/bdd_collection.cpp bdd_and, bdd_and_impl (pairwise and N-ary)")],
 ["bdd_collection::bdd_and (index, range and operator & forms), evaluate, nr_bdd_nodes, variables, export_bdd"],hook=HK)

add("C13","Collection node limit is exact and refusal has no effect",
 "A conjunction in a collection with node limit L (three or more) is refused, with the maximal index value returned, exactly if the reduced result has more than L nodes including its two terminals; pairwise and range forms agree. A refused conjunction, or an unsupported range length that throws, leaves the collection exactly as it was (number of entries and every entry's content), and all later operations work as if the attempt had not been made.",
 ["inputs","histories"],"all operand tuples, all limits around the exact size, all histories of refused and accepted requests",
 "One pair of simplices with the two limits next to the size is tested, nothing after a refusal of the range form.",
 ["src/bdd_collection.cpp","include/bdd_collection.h"],
 [("stack size check and cleanup","src/bdd_collection.cpp bdd_and/bdd_and_impl")],
 ["bdd_collection::bdd_and with limit, nr_bdds, get_bdd_instructions"],hook=HK)

add("C14","Collection disjunction with literals is an exact disjunction",
 "Disjoining a stored diagram with any set of positive and negative literals (of variables inside or outside its support, above, between or below its levels; empty sets and complementary literals allowed) appends one entry that is the reduced ordered diagram of the disjunction of the diagram and all these literals. The operand and all other entries stay unchanged.",
 ["inputs"],"all stored diagrams, all sets of literals",
 "One simplex and its two top variables are tested.",
 ["include/bdd_collection.h","src/bdd_collection.cpp"],
 [("synthesis with literals","include/bdd_collection.h bdd_or_var, src/bdd_collection.cpp")],
 ["bdd_collection::bdd_or_var, evaluate, nr_bdd_nodes, export_bdd, bdd_mgr::add_bdd"],hook=HK)

add("C15","Removing entries from a collection keeps exactly the others",
 "Removing any sorted set of distinct entries (none, some, the first, the last, all) leaves the remaining entries in their order, renumbered consecutively, each denoting the same function with the same nodes as before. Every later operation on the collection behaves as if the removed entries had never been stored.",
 ["inputs","histories"],"all collections, all subsets, all histories mixing removal with other operations",
 "One removal of two entries out of four is tested, and only the all-zero assignment is evaluated afterwards.",
 ["include/bdd_collection.h"],
 [("compaction with offset adjustment","include/bdd_collection.h remove")],
 ["bdd_collection::remove, nr_bdds, evaluate, nr_bdd_nodes, export_bdd"],hook=HK)

add("C16","Collection renaming and queries are exact and local to one entry",
 "Renaming one entry under any order-preserving map of its support (associative or vector form, directly or through the entry wrapper) replaces exactly that entry's function by the renamed one. Evaluation, variable list, node count, node count per variable and size, directly or through the wrapper, always describe exactly the addressed entry; no other entry is affected.",
 ["inputs","histories"],"all collections, all entries, all strictly increasing maps, all assignments",
 "Collection renaming, per-variable counts and the entry wrapper are not tested at all.",
 ["include/bdd_collection.h","src/bdd_collection.cpp"],
 [("in-place renaming","include/bdd_collection.h rebase"),("queries by entry delimiters","src/bdd_collection.cpp variables/nr_bdd_nodes")],
 ["bdd_collection::rebase/variables/nr_bdd_nodes/evaluate/operator[], bdd_collection_entry"],hook=HK)

add("C17","Node-by-node building and navigation agree with the diagram",
 "A diagram built node by node in a collection (open, add nodes parents before children, connect arcs to nodes or terminals in any order, close) evaluates as drawn, leaves other entries unchanged and can be used by every collection operation; closing with an unset arc reports an error. Walking any stored entry from its root by low and high arcs, and by the children-first sequence from the first node to the root, visits exactly its nodes with the right variables and terminals, and node wrappers stay valid as long as the collection is not modified.",
 ["inputs","histories"],"all ordered diagrams and arc-setting orders, all stored entries however produced",
 "The builder and the node wrappers are not tested at all.",
 ["src/bdd_collection.cpp","include/bdd_collection.h"],
 [("builder with placeholder terminals","src/bdd_collection.cpp new_bdd/add_bdd_node/set_*_terminal/close_bdd"),("node wrapper","include/bdd_collection.h bdd_collection_node")],
 ["bdd_collection::new_bdd/add_bdd_node/close_bdd, bdd_collection_node, bdd_collection_entry::root_node/first_node_postorder/botsink/topsink"],hook=HK)

add("C18","Textual output describes exactly the printed diagram",
 "The printed form of a manager diagram, and the Graphviz export of a stored one, list every decision node and both arcs of each exactly once with the right labels, so that the diagram and its function can be reconstructed from the text; constants yield well-formed output. Printing changes nothing and can be repeated.",
 ["inputs"],"all diagrams and stored entries",
 "One export is written to a file that no test reads; printing is not tested.",
 ["include/bdd_node.h","include/bdd_collection.h"],
 [("recursive print with marks","include/bdd_node.h print/print_rec"),("clustered Graphviz export","include/bdd_collection.h export_graphviz")],
 ["node_ref::print, bdd_collection::export_graphviz"],hook=HK)

add("C19","Node and page allocators never hand out memory in use",
 "In every sequence of reservations and releases, the node allocator and the table-page allocators return storage that is disjoint from all storage currently reserved and stays at its address until released; a reserved page has all entries empty. The node allocator's count is always two plus the nodes reserved and not released, releasing a node gives back the references it held on its children, and released storage is reused before more is requested.",
 ["histories"],"all sequences of reserve and release, across all block boundaries",
 "Tests reserve everything, then release everything, and check counts only.",
 ["src/bdd_node_cache.cpp","include/bdd_node_cache.h","include/bdd_var.h"],
 [("free list and bump pointer","src/bdd_node_cache.cpp reserve_node/free_node/increase_cache"),("page free list","include/bdd_var.h unique_table_page_cache")],
 ["bdd_node_cache::reserve_node/free_node/nr_nodes, unique_table_page_cache::reserve_page/free_page"])

add("C20","Results do not depend on memory contents, hash keys or other managers",
 "The same sequence of operations gives isomorphic diagrams, the same counts and query answers in every manager and collection, whatever earlier use left in the process's memory, whatever internal random hash keys are drawn, and whatever other managers and collections are alive, used in between, created or destroyed. No operation reads memory it has not initialised or touches memory outside its own objects, and a manager whose handles are gone can always be destroyed.",
 ["histories","configurations"],"all operation histories, all prior heap contents, all hash-key draws, all interleavings with other managers",
 "Each test uses one manager in a fresh process, where new memory happens to be zero.",
 ["src/bdd_node_cache.cpp","src/bdd_node.cpp","src/bdd_mgr.cpp","src/bdd_var.cpp","src/bdd_collection.cpp"],
 [("initialisation of terminals and nodes","src/bdd_node.cpp init_botsink/init_topsink/init_new_node"),("teardown order","src/bdd_mgr.cpp destructor, src/bdd_var.cpp destructor")],
 ["canonical serialisation of all results of a history replayed under different conditions, under AddressSanitizer with poisoned fresh memory"],hook=HK)

add("C21","Managers and collections in different threads do not disturb each other",
 "When every manager and every collection is used by one thread at a time, any number of them can be created, used, garbage collected, exchanged with each other and destroyed in different threads at once, and each thread gets exactly the results it gets when it runs alone. Nothing is shared between managers behind the user's back, so there is no data race, and a manager or collection may be handed over from one thread to another when the first has finished with it.",
 ["schedules","programs"],"all programs, all numbers of threads, all interleavings",
 "No test starts a thread.",
 ["src/bdd_node.cpp","src/bdd_node_cache.cpp","src/bdd_mgr.cpp","src/bdd_collection.cpp"],
 [("hash key generator","src/bdd_node.cpp init_new_node"),("scratch containers of operations","include/bdd_mgr.h, include/bdd_collection.h")],
 ["programs run in threads, results compared with those of running alone, ThreadSanitizer"],hook=HK)

add("C22","Collections are values: copies are equal and independent",
 "Copying, moving, assigning (also to itself) and swapping collections, and keeping them in containers that grow, gives collections with exactly the entries of the source, which behave the same in all later operations. Afterwards changing, emptying or destroying one of them has no effect on any other, and a collection that was moved from can be assigned to and used again.",
 ["histories"],"all collections, all histories of copying, moving, assigning, swapping, changing and destroying",
 "No test copies, moves or assigns a collection.",
 ["include/bdd_collection.h","src/bdd_collection.cpp"],
 [("implicitly defined copy and move","include/bdd_collection.h class bdd_collection")],
 ["content of all collections after every step against a list of functions, AddressSanitizer"],hook=HK)

add("C23","Storage is used again and given back",
 "Destroying managers and collections gives back all storage they acquired in any history, including operations that were refused with an error. While they live, storage released by garbage collection, by removing entries and by shrinking tables is used again: repeating a cycle of building, dropping and collecting any number of times does not make the storage held grow beyond what the first few cycles reached, apart from the operation cache, whose size has a fixed bound.",
 ["histories"],"all histories, all numbers of repetitions",
 "Tests never repeat a cycle, and nothing observes how much storage is held.",
 ["src/bdd_node_cache.cpp","src/bdd_var.cpp","include/bdd_var.h","src/bdd_mgr.cpp","include/bdd_collection.h"],
 [("pages returned on shrinking and doubling","src/bdd_var.cpp, include/bdd_var.h"),("block lists","src/bdd_node_cache.cpp")],
 ["bytes held by operator new before and after, and over repeated cycles"],hook=HK)

add("C24","The operation cache answers only what was put in, and purging is exact",
 "A lookup in the cache of operation results returns either nothing or exactly the result inserted last for exactly these operands, in this order, and this operation, after any sequence of insertions, lookups, growth and purges. A result is found right after it is inserted; one insertion makes at most one other result disappear, also when the cache grows. A purge forgets every result that mentions a node without references, as operand or as result, and no other. Most of a long run of insertions stays available up to the maximal size of the cache.",
 ["histories"],"all sequences of insertions, lookups, releases of nodes and purges, through all sizes of the cache",
 "The cache is not tested by itself; a wrong answer shows only if an operation asks for the same slot again, and a forgotten result only as lost time.",
 ["src/bdd_memo_cache.cpp","include/bdd_memo_cache.h"],
 [("direct mapped slots and growth","src/bdd_memo_cache.cpp cache_insert/double_cache"),("purge","src/bdd_memo_cache.cpp purge/can_be_purged"),("operation symbols","include/bdd_memo_cache.h memo_struct")],
 ["memo_cache::cache_lookup, cache_insert, purge"],hook=HK)

add("C25","Running out of memory is survivable",
 "If requests for memory fail anywhere inside an operation, a query, a garbage collection or a construction, the call either succeeds or lets std::bad_alloc reach the caller. Either way every handle held denotes the same function with the same nodes, every stored entry is unchanged and no node stays marked. The same call made again with memory available gives the right result; later operations are correct, later garbage collections leave exactly the nodes reachable from held handles, and destroying manager, collections and handles gives back all storage. Only the target of a failed assignment of collections is lost: it can be assigned again or destroyed.",
 ["faults","histories"],"all histories, every point at which a request for memory can fail, one failure or all from one on",
 "No test lets a request for memory fail.",
 ["src/bdd_var.cpp","src/bdd_mgr.cpp","src/bdd_node.cpp","src/bdd_node_cache.cpp","src/bdd_memo_cache.cpp","src/bdd_collection.cpp","include/bdd_collection.h"],
 [("tables replaced only when all memory is there","src/bdd_var.cpp double_cache/remove_dead_nodes"),("collection stopped half-way","src/bdd_mgr.cpp collect_garbage"),("marks removed","src/bdd_node.cpp nodes_postorder/nodes_bfs/variables"),("entries taken back","src/bdd_collection.cpp rollback_guard")],
 ["results of calls while operator new refuses, and everything held afterwards"],hook=HK)

open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P),"properties")
