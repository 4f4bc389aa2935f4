import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
E="src/node/edit.rs";I="src/node/internal.rs";M="src/node/membership.rs";PL="src/node/plain.rs";H="src/node/hot.rs";F="src/node/frozen.rs";T="src/tree.rs";L="src/tree/lock.rs";S="src/serial.rs"
p("C01","Navigation always agrees with one consistent ordered tree",
"After any history of edits, every navigation query on every node (parent, root, is_root, first/last/previous/next sibling, first/last child, first_last pairs, has_*, num_children and all count_* methods) answers exactly as one consistent rooted ordered tree, namely the one the edit history produced. The answers are the same through plain, frozen and hot handles. No query panics or loops.",
["histories","inputs"],"for every tree shape and every history of creations, moves, detachments, replacements and clones, for every node of every live tree, through every handle type",
"The doctests query a handful of nodes of fixed trees of at most ~8 nodes after one edit; link fields that only a later query reads (e.g. the last child remembered by the first sibling) are never re-read after combinations of edits.",
[I,E,PL,F,H],[("cyclic previous-sibling link and owning first-child/next-sibling links","src/node/internal.rs: NodeCore, NodeCoreLink"),("unlink / insert algorithms","src/node/edit.rs: OrphanRoot"),("children counter","src/node/internal.rs: num_children_add/sub")],
[("NodeCore","parent, first_child, prev_sibling_cyclic, next_sibling, num_children of a node",I)],["Node/FrozenNode/HotNode navigation methods"])
p("C02","Creating a node puts exactly one new node at the documented place",
"Every creation operation (first/last child, previous/next sibling, create_node_as, interrupting parent, interrupting child, and the panicking, try_ and hot variants) adds exactly one node carrying the given data at the documented position. The rest of the tree keeps its structure, order and data; interrupting operations re-parent exactly the documented nodes, and interrupting the root makes the new node the root.",
["histories","inputs"],"for every tree, every node of it, every creation operation and position, at any point of an edit history",
"Each operation has one doctest on one fixed tree; positions such as the only/last/first of several siblings, or creation after previous moves, are not enumerated.",
[E,PL,H,"src/anchor.rs"],[("creation and interrupting creation","src/node/edit.rs: create_as_*, try_create_*, create_as_interrupting_*"),("root replacement","src/tree.rs: TreeCore::replace_root")])
p("C03","Moving, detaching and replacing nodes has exactly the documented effect",
"detach_subtree makes the subtree an independent tree; detach_insert_subtree moves the whole subtree to the requested place (same tree or another); replace_with_children puts a node's children in its place and makes the node a tree of its own. In every case the subtree's inner structure, order and data, and all nodes not involved, are unchanged, and no node is lost, duplicated or left in two trees.",
["histories","inputs"],"for every source node, destination kind and anchor (near, far, adjacent, own parent, other tree), with any mix of live handles, at any point of an edit history",
"Tests cover one or two fixed moves per destination kind; adjacency (moving next to a neighbour or into the same place), last-sibling sources and moves of whole trees with only some handles alive are not covered.",
[E,I,M,H],[("unlink, re-parent, membership rewrite","src/node/edit.rs: OrphanRoot, detach_subtree, detach_and_move_*, try_replace_with_children, set_memberships_of_descendants_and_self")])
p("C04","A rejected edit reports the documented error and changes nothing",
"An edit that cannot be done (sibling of a root, a node moved under itself or its own descendants, emptying a tree, replacing a root that has several children, cloning borrowed data) fails with the documented error, or panics in the variant documented to panic. Either way every tree, handle, lock and datum is exactly as before the call.",
["histories","inputs","fault_sequences"],"for every rejected combination of operation, source, destination and borrow state, at any point of an edit history",
"Only a few error values are asserted in tests, on fixed trees, and none of them compares the whole state of all trees before and after the failed call.",
[E,PL,H,"src/node.rs"],[("validation before mutation","src/node/edit.rs: detach_and_move_*, try_replace_with_children, try_clone_insert_subtree"),("error type","src/node.rs: HierarchyError")])
p("C05","Any handle keeps the whole tree alive; data is dropped once, at once",
"While any strong reference into a tree exists (plain, frozen or hot node, Tree, or a traverser that has not come to its end), every node of that tree stays alive and readable. When the last one goes away every datum of that tree is dropped exactly once, immediately; no datum is leaked, dropped early or dropped twice by any operation, including failed and panicking ones.",
["histories","inputs"],"for every history interleaving edits with acquiring, cloning, converting and dropping handles of every kind, for every order of dropping them",
"tests/tree_drop.rs drops four fixed trees in a few orders; keeping alive or freeing depends on counts kept per node across moves, detaches and conversions, which only histories exercise.",
[I,M,T],[("per-node strong reference counting of the tree","src/node/membership.rs: increment/decrement_tree_refcount, set_tree_core"),("tree teardown","src/tree.rs: Drop for TreeCore")],[("MembershipCore","weak/strong tree reference with count and lock aggregation",M)])
p("C06","Weak references upgrade exactly while their target is alive",
"A weak node or weak tree reference upgrades, to the very node or tree it was made from, as long as that tree is alive, and to nothing from the moment the tree's last strong reference is gone. This holds for every weak reference wherever its node has been moved since, and also when the upgrade is attempted from the destructor of user data; it never panics, resurrects a dead tree or returns another node.",
["histories","inputs"],"for every history of edits and handle drops, at every point between operations and inside user-data destructors run by an operation",
"One doctest upgrades a weak reference once before and once after a drop; upgrading from a destructor in the middle of tree teardown or of a move is never tested.",
[PL,T,M,I],[("weak upgrade","src/node/plain.rs: NodeWeak::upgrade; src/tree.rs: TreeWeak::upgrade"),("membership state during teardown","src/node/membership.rs")])
p("C07","Very deep and very wide trees are handled without exhausting the stack",
"Building, navigating, traversing, serialising, collecting, cloning, comparing, moving, detaching, pretty-printing and dropping trees works for trees whose depth or width is far larger than what the thread's stack could hold as nested calls. It yields the same results as for small trees.",
["inputs","configurations"],"for every shape (chain, star, comb, broom, random) with tens of thousands of nodes, on threads with a small stack, for every non-recursive operation and every drop order",
"No test builds a tree deeper than four levels, so a recursive drop, clone or comparison would pass all of them.",
[T,I,PL,S,"src/traverse/depth_first.rs"],[("iterative teardown","src/tree.rs: Drop for TreeCore; src/node/internal.rs"),("iterative traversal","src/traverse/depth_first.rs")])
p("C08","Edit grants and edit prohibitions of a tree exclude each other exactly",
"A tree never has a live edit grant and a live edit prohibition at the same time: requesting one kind (directly or bundled in a hot or frozen node) succeeds if and only if no token, node handle or unfinished traversal of the other kind is alive for that tree. Any number of the same kind can coexist, a failed request changes nothing, and dropping the last holder of one kind frees the tree immediately.",
["histories","inputs"],"for every history of acquiring, cloning, extracting, converting and dropping grants, prohibitions, hot nodes and frozen nodes over several nodes and trees, interleaved with edits",
"tests/grant_prohibition_conflicts.rs checks single acquire/acquire pairs on one node; leaks or early releases need several handles on several nodes, released in some order.",
[L,M,H,F,T],[("lock counter","src/tree/lock.rs: HierarchyLockManager, LockAggregatorForNode"),("per-node aggregation","src/node/membership.rs: acquire_edit_*, decrement_edit_lock_count")])
p("C09","Edit tokens are honoured for their own tree only, and follow moved nodes",
"A grant or prohibition is valid for exactly the nodes that currently belong to its tree; using a grant or prohibition with a node outside its tree panics before anything changes. Hot node handles into a subtree keep working, and keep the tree the subtree now belongs to editable and unfreezable, when the subtree is detached or moved; the old tree stops being locked by them.",
["histories","inputs"],"for every grant, prohibition and node, before and after any detach, move, replace or root change",
"Tests use a grant on its own tree; validity after nodes changed tree in either direction and lock transfer of handles inside a moved subtree are barely touched.",
[L,M,PL,H],[("validity check","src/tree/lock.rs: is_valid_for_node, panic_if_invalid_for_node"),("lock transfer","src/node/membership.rs: set_tree_core; src/tree/lock.rs: transfer_single_lock_to")])
p("C10","Tree identity and membership follow the nodes",
"Two nodes report the same tree (tree(), belongs_to, belongs_to_same_tree, pointer equality of trees and nodes) if and only if they are connected, after any history of edits. A tree handle's root() is the current root of that tree also after the root was replaced, and a detached or cloned subtree or a removed node is a new tree distinct from every other.",
["histories","inputs"],"for every pair of nodes and every tree handle obtained at any point of an edit history",
"Doctests compare two fresh trees; membership of every descendant after cross-tree moves, with and without other handles alive, is not covered.",
[T,M,PL,H,F,E],[("membership per node","src/node/membership.rs: set_tree_core, ptr_eq_tree_core"),("root of tree","src/tree.rs: TreeCore::replace_root, Tree::root")])
p("C11","Plain traversals visit exactly the documented nodes in order",
"Depth-first traversal (forward and reverse), children, siblings, preceding/following siblings, ancestors (with or without self), and stepping single events forwards, backwards or to the close of the current node, yield exactly the documented sequence for the tree and end there. Peeking, cloning, size hints and exhausted traversers agree with the remaining sequence at every step, for every handle type.",
["inputs","histories"],"for every tree shape, start node, start event inside the subtree and number of steps taken before peeking/cloning/closing",
"Doctests run each traversal once over a fixed tree from one start node; starts at first/last/only siblings, size hints and mid-way state are unexamined.",
["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs",PL,F,H],[("event stepping","src/traverse/depth_first.rs: DftEvent::next/prev/close_current"),("iterators","src/traverse/*.rs")])
p("C12","Stable traversals are exact under any mix of front and back steps",
"The stable depth-first and stable sibling traversals over a frozen tree yield, for every interleaving of next() and next_back(), the forward sequence consumed from both ends: no item is lost, repeated or out of range, and both ends report exhaustion exactly when all items were taken. peek, peek_back, close_current, clone, size hints and standard iterator adapters agree with the remaining items at every step.",
["inputs","schedules"],"for every tree shape, start node, first/last event range and every interleaving of front and back operations",
"Tests iterate only forwards or only backwards to the end; meeting in the middle at each possible place needs every interleaving.",
["src/traverse/depth_first.rs","src/traverse/siblings.rs",F],[("range end detection","src/traverse/depth_first.rs: StableDepthFirstTraverser; src/traverse/siblings.rs: StableSiblingsTraverser")])
p("C13","Depth-limited and breadth-first traversals select exactly the right nodes",
"The depth-limited depth-first traversal yields the full traversal restricted to nodes within the limit, with correct depths, from both ends in any interleaving. Both breadth-first traversals yield every node at or below the start depth, level by level and in order within a level, with correct depths, and agree with each other, for every limit or start depth up to the maximum integer. Peek, clone and size hints agree with the remaining items.",
["inputs","schedules"],"for every tree shape, start node, depth limit/start depth (0, inside, beyond the tree, maximum) and interleaving of front and back steps",
"Doctests use one fixed tree with two or three limits; extreme depths, uneven trees and mixed directions are not covered.",
["src/traverse/depth_first.rs","src/traverse/breadth_first.rs"],[("depth limit","src/traverse/depth_first.rs: StableShallowDepthFirstTraverser"),("breadth-first queues","src/traverse/breadth_first.rs")])
p("C14","Serialising a subtree to events and building it back is lossless",
"The event stream of any subtree is the canonical one (each node opened in order with its data, consecutive closings merged), and collecting it, or the traversal events of the subtree, into a node, frozen node, hot node or tree gives an equal, independent tree. Mutably borrowed data surfaces as a borrow error for that node, never as a panic or a wrong tree; shared borrows do not disturb it.",
["inputs","fault_sequences"],"for every tree shape and data, every subtree root, every set of borrowed nodes, every source and target handle type",
"Round trips are tested on one fixed 7-node tree through one or two target types.",
[S,"src/traverse/depth_first.rs"],[("serialiser","src/serial.rs: TreeSerializeIter"),("FromIterator / TryFrom conversions","src/serial.rs")])
p("C15","The tree builder accepts exactly well-formed event streams",
"For any stream of open/close events the builder accepts or rejects each event, with the documented error, exactly as a stack of open nodes would, reports root availability and closedness accordingly, and finishes with exactly the tree the accepted events describe. A builder started on an existing node only adds nodes under that node, whether or not that node is a tree root.",
["inputs"],"for every finite event stream (any nesting, any close level including 0 and huge ones), any split of it over the push methods, and any pre-existing tree for the start node",
"Two unit tests cover one excessive close and one empty builder; the combinations of close levels, depths and pre-existing start nodes are open-ended.",
[S],[("builder state machine","src/serial.rs: TreeBuilder::open/close/push_*/finish")])
p("C16","Cloning a subtree or tree gives an equal, fully independent copy",
"clone_subtree, clone_tree and clone_insert_subtree (and their try_ variants) copy exactly the subtree's shape, order and data into a new tree or at the requested place, even when the destination lies inside the source. The source is untouched and later edits or data changes on either side do not show in the other. If some datum cannot be borrowed, the try_ variants report it and nothing has changed.",
["inputs","histories","fault_sequences"],"for every source subtree, destination kind and anchor (other tree, same tree, inside the source), every set of borrowed nodes",
"Doctests clone one small subtree into a different place of the tree; destinations inside the source and borrow failures at each node are not tested.",
[E,PL,H,F,T],[("collect then insert","src/node/edit.rs: try_clone_insert_subtree"),("clone via events","src/node/plain.rs: try_clone_subtree; src/tree.rs: try_clone_tree")])
p("C17","Equality of trees and nodes means same shape and equal data",
"Comparing two nodes of any handle types, or two trees, holds if and only if the two subtrees have the same shape and order and pairwise equal data, independent of where they are in their trees; it is symmetric and reflexive. try_eq gives the same answer, and a borrow error only when some involved datum is mutably borrowed.",
["inputs","fault_sequences"],"for every pair of subtrees, in particular near-identical ones (one datum, one position, one level or one extra node apart, same traversal data but different shape), every handle type pair, every borrowed node",
"Doctests compare a few fixed trees; shapes that differ while visiting the same data in the same order are not systematically tried.",
[PL,H,F,T,I],[("event-wise comparison","src/node/plain.rs: try_eq and PartialEq impls; src/tree.rs: Tree::try_eq")])
p("C18","Node data is one shared cell, usable independently of the hierarchy",
"All handles to a node see the same datum: a write through one is read through every other, before and after the node is moved, detached or its siblings or ancestors change. Borrowing follows the many-readers-or-one-writer rule exactly (try_ variants report, others panic), and navigation, traversal, locks and hierarchy edits work while data are borrowed in any way and never touch or borrow them.",
["histories","inputs","fault_sequences"],"for every set of live shared/exclusive borrows on any nodes, every handle kind and every edit done meanwhile",
"Borrow doctests look at one node and no hierarchy operation at the same time.",
[PL,H,F,I],[("RefCell data","src/node/internal.rs: NodeCore data; borrow methods of Node/HotNode/FrozenNode")])
p("C19","Debug output shows the subtree faithfully and never fails",
"The pretty printer (Display and Debug, normal and alternate) renders exactly the subtree: one item per node in order with indentation that reflects its depth and position, continuation lines of multi-line data aligned, and mutably borrowed data shown as a placeholder; an error of the destination is reported and nothing else is lost. The structural debug printers show every node of the subtree once, in order, and no printer panics whatever the data, shape or borrow state.",
["inputs"],"for every tree shape, subtree root, data text (empty, multi-line, trailing newline, non-ASCII), borrow state and formatter flags",
"tests/pretty_debug_print.rs compares three fixed trees; empty texts, trailing newlines and borrowed nodes in each position are not enumerated.",
["src/node/debug_print/pretty.rs","src/node/debug_print/debug.rs","src/tree/debug_print.rs"],[("indent writer","src/node/debug_print/pretty.rs: IndentWriter"),("debug printers","src/node/debug_print/debug.rs")])
p("C20","The tree macros build exactly the tree that is written",
"A tree! or tree_node! invocation evaluates to a new tree with exactly the written nesting, order and data, for every mix of leaves and nodes with children, at any position, with or without trailing commas and with arbitrary data expressions. Each data expression is evaluated exactly once, parents before children, in written order.",
["programs"],"for every syntactically valid macro invocation",
"A macro invocation is source text: the tests contain a few fixed invocations, all in the same style.",
["src/macros.rs"],[("macro rules","src/macros.rs: tree_node!, tree!")])
p("C21","Traversals that were under way go on correctly after edits",
"A plain traversal (depth-first in both directions, siblings or children in both directions, ancestors, the event stream of a subtree) or a single traversal event may be kept while nodes are created, moved, detached, replaced or cloned. It keeps the item it showed as next, so that next() returns exactly what peek() showed before, whatever was edited in between, and each further item is the neighbour of that one in the tree as it is at that time. A copy goes on from the same place, size hints stay correct bounds, the tree of the next item stays alive, and nothing panics or is repeated endlessly. A stable traversal under way is not affected by edits of other trees, by data writes, or by other handles coming and going.",
["histories","schedules"],"for every traversal kind, every position it has reached, and every history of edits between any two of its steps",
"Tests run each traversal to its end on a tree that does not change; the one documented example edits once, with one kind of traversal.",
["src/traverse/depth_first.rs","src/traverse/siblings.rs","src/traverse/ancestors.rs","src/traverse/breadth_first.rs","src/serial.rs"],[("cached next node","src/traverse/*.rs: next fields and peek"),("events","src/traverse/depth_first.rs: DftEvent::next, prev, close_current"),("documented example","src/lib.rs: Hierarchy edit prohibitions and grants")])
p("C22","User code that the library calls may itself use the library",
"While an operation runs code of the node data type (Clone, PartialEq, Debug, Display, Drop) or of an iterator that feeds a tree, that code may navigate, traverse and query every live tree, including the one being operated on, take and drop handles, weak references and locks, borrow data that are not borrowed exclusively, and create, edit and destroy other trees. None of this panics or disturbs the operation that is running, and the live trees look either as they were before the operation or as they are after it, never half-edited.",
["histories","fault_sequences"],"for every operation that runs user code, every state of all trees at that time, and every use of the library inside",
"In the tests node data are plain strings and integers whose code uses nothing.",
["src/node/membership.rs","src/node/internal.rs","src/node/edit.rs","src/tree.rs","src/serial.rs"],[("internal borrows","src/node/membership.rs, src/tree.rs: RefCell and Cell state that must not be held across user code"),("order of drops in edits","src/node/edit.rs: when the source tree of a move is released"),("destruction","src/tree.rs: Drop of TreeCore")])
p("C23","No memory is leaked or hoarded",
"When the last handle, token, weak reference, traverser and builder is gone, all heap memory that the library allocated has been given back, whatever histories of edits, moves between trees, clones, rejected operations, abandoned or failed builders and panicking user code led there. While a tree lives, what it holds depends on its nodes and the handles to it, and not on how many operations were done: repeating operations that leave everything as it was (create and remove, move and move back, lock and unlock, traverse, print, clone and drop) does not let memory grow. The non-allocating breadth-first traverser makes no heap allocation; the allocating one gives memory that it does not need for the nodes it still has to visit back when it is shrunk, and all of it when it has come to its end.",
["histories","fault_sequences"],"for every history that ends with all handles dropped, and any number of repetitions of any operations that undo each other",
"The tests never look at memory; a leaked tree or link makes no assertion fail, and the destructors of the data may have run all the same.",
["src/node/membership.rs","src/node/internal.rs","src/tree.rs","src/tree/lock.rs","src/traverse/breadth_first.rs"],[("promise","src/lib.rs: Reference counting ('No memory leaks!')"),("reference counts","src/node/membership.rs, src/node/internal.rs: Rc and Weak links"),("non-allocating traverser","src/traverse/breadth_first.rs: NonAllocatingBreadthFirstTraverser")])
p("C24","Operations cost what they are documented to cost",
"The work an operation does depends only on what it is about, not on the size of the rest of the tree, on the depth or width around it, on how the tree was built, or on how many handles, weak references and tokens there are. Navigation queries (including num_children, last_child, last_sibling, root and tree), conversion, cloning and dropping of handles, weak references and tokens, granted and refused, creation of nodes anywhere, making a traverser and each step of it in either direction, and each event given to a builder (apart from the levels it closes) take time bounded by a constant. Detaching a subtree, moving it to another tree and cloning it take O(nodes in the subtree); moving inside a tree O(ancestors of the destination); replacing a node with its children and inserting an interrupting child O(children); comparing, serialising, collecting and dropping a tree, and traversing it with the allocating breadth-first traverser, O(nodes); the count_* queries O(what they count); pretty printing O(output and nodes); the non-allocating breadth-first traverser O(n^2).",
["inputs","histories"],"for every shape and size of tree, every node in it, every way it was built and every set of live handles",
"The tests use trees of a few nodes and look at results only; code that walks all siblings or ancestors gives the same results.",
["src/node/internal.rs","src/node/edit.rs","src/node/membership.rs","src/tree.rs","src/tree/lock.rs","src/traverse/","src/serial.rs"],[("documented costs","src/node/plain.rs: num_children, count_*, detach_subtree, try_detach_insert_subtree; src/traverse/breadth_first.rs"),("cyclic sibling links","src/node/internal.rs: last child in O(1)"),("edits","src/node/edit.rs"),("destruction","src/tree.rs: Drop of TreeCore")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
