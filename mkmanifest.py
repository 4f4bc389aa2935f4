#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C01": ("stateful model-based property testing (random edit histories against a reference tree model)", "Every navigation query of every node of every live tree, through all handle types, is compared with the model during and after each history."),
 "C02": ("stateful model-based property testing (random edit histories, creation-heavy)", "Each creation is compared with the model: place, data, rest of the tree, number of data made and dropped."),
 "C03": ("stateful model-based property testing (random edit histories, move/detach/replace-heavy)", "Each edit is compared with the model in full (structure, data, trees), in debug and release builds."),
 "C04": ("stateful model-based property testing with rejected operations and borrow faults injected", "Each rejected edit must give the documented error or panic and leave an identical state."),
 "C05": ("stateful model-based property testing (random handle histories, destructor log as oracle)", "The destructors run by each operation are exactly those the model predicts from the live handles."),
 "C06": ("stateful model-based property testing, weak references probed between operations and inside user-data destructors", "Every weak reference of every node ever made is probed; inside destructors too."),
 "C07": ("property-based testing on generated trees of 20 000 to 35 000 nodes on 256 KiB stacks", "Stack exhaustion ends the worker, which is confirmed in a process of its own and reported."),
 "C08": ("stateful model-based property testing (reference lock counts per tree)", "Success or failure of every lock request is predicted by counting the live holders."),
 "C09": ("stateful model-based property testing (tokens of other trees, hot handles followed through moves)", "Use of tokens outside their tree must panic and change nothing; locks follow moved hot handles."),
 "C10": ("stateful model-based property testing (membership matrix against the model)", "Membership and identity of all pairs of handles are compared with the model. One known finding is probed separately."),
 "C11": ("property-based testing of traversals against sequences computed from a reference tree", "Sequence, end, peek, clone, size hints for all plain traversals."),
 "C12": ("property-based testing with random front/back schedules against a reference deque", "Each step of each schedule is compared with a deque of the expected items."),
 "C13": ("property-based testing with random limits and schedules against a reference deque", "Each step is compared with the expected items; both breadth-first traversals."),
 "C14": ("property-based round-trip testing with borrow faults injected", "Event stream equals the canonical one, and collecting gives an equal, independent tree."),
 "C15": ("property-based testing of event streams against a reference stack builder", "Answer to every event, status queries, and the finished tree."),
 "C16": ("stateful model-based property testing (clone-heavy histories, borrow faults injected)", "Copies are compared with the model, and the histories go on with both sides."),
 "C17": ("property-based differential testing of near-identical subtrees against a reference equality", "All handle type pairs, both directions, try_eq with borrows."),
 "C18": ("stateful model-based property testing (reference borrow counts per node)", "Every borrow is predicted by the model; edits, traversals and locks run during borrows."),
 "C19": ("property-based testing of printers against a reference renderer", "Exact text of the pretty printer; node lists of the structural printers."),
 "C20": ("generative program testing (random macro invocations compiled and run against their specification)", "Shape, order, data and order of evaluation of each invocation."),
 "C21": ("stateful model-based property testing (traversals kept and stepped between random edits)", "Each step, peek and size hint of kept traversals is compared with a cursor in the model, and so is what they keep alive."),
 "C22": ("stateful model-based property testing with reentrant user code (clone, eq, fmt, drop, iterators)", "What user code sees in the middle of operations is compared with the state before and after; it also edits trees of its own there."),
 "C23": ("stateful model-based property testing and random repeated operation cycles under a counting allocator", "Memory held after each history is compared with that before it, memory held after repetitions of operations that undo each other must not grow, and allocations of the non-allocating traverser are counted."),
 "C24": ("property-based testing on generated trees of up to 6000 nodes, with the executed control flow edges counted by instrumentation", "Each operation's number of steps, which is deterministic, is compared with a constant plus a constant times the documented measure (10 and 4 times what is observed; the trees are big enough that anything linear in something else exceeds it)."),
}
NOTE = " Assurance: no failure in the generated cases (counts in the evidence file); trusts the reference model and the harness."
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [
  {"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
   "technique": t, "level": "exploration", "level_note": n + NOTE}
  for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo are needed: everything is observed through the public API. harness replay FILE runs a replay file again.",
}
json.dump(m, open(__file__.replace("mkmanifest.py", "MANIFEST.json"), "w"), indent=1)
