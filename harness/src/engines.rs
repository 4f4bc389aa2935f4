//! Which engine decides which property, with how many cases.

use crate::choice::Src;
use crate::{cost, deep, eq, mem, print, serial, trav, world};

/// Engines of a property, with weights.
pub fn plan(prop: &str) -> Vec<(&'static str, u32)> {
    match prop {
        "C07" => vec![("c07", 1)],
        // A few huge trees each.
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C09" | "C10" => vec![("world", 4000), ("types", 400), ("c07", 1)],
        "C18" | "C21" => vec![("world", 4000), ("types", 400), ("c07", 1)],
        "C16" => vec![("world", 2000), ("types", 400), ("c07", 1)],
        "C11" => vec![("c11", 40_000), ("types", 400), ("c07", 1)],
        "C12" => vec![("c12", 40_000), ("types", 400), ("c07", 1)],
        "C13" => vec![("c13", 40_000), ("types", 400), ("c07", 1)],
        "C14" => vec![("c14", 20_000), ("types", 400), ("c07", 1)],
        "C15" => vec![("c15", 30_000), ("types", 300), ("c07", 1)],
        "C17" => vec![("c17", 20_000), ("types", 400), ("c07", 1)],
        "C19" => vec![("c19", 20_000), ("types", 400), ("c07", 1)],
        "C24" => vec![("cost", 1)],
        "C23" => vec![("world", 3), ("mem", 2)],
        _ => vec![("world", 1)],
    }
}

pub fn run(engine: &str, prop: &str, src: &mut Src) {
    if prop == "C23" {
        mem::accounted(src, |src| run_engine(engine, prop, src));
    } else {
        run_engine(engine, prop, src);
    }
}

fn run_engine(engine: &str, prop: &str, src: &mut Src) {
    match engine {
        "cost" => cost::run(src),
        "mem" => mem::run(src),
        "world" => world::run(src, world::profile(prop)),
        "c07" => deep::run(src, prop, true),
        "types" => deep::run(src, prop, false),
        "c11" => trav::c11(src),
        "c12" => trav::c12(src),
        "c13" => trav::c13(src),
        "c14" => serial::c14(src),
        "c15" => serial::c15(src),
        "c17" => eq::c17(src),
        "c19" => print::c19(src),
        _ => panic!("unknown engine {engine}"),
    }
}

/// Cases of a run. Thorough runs stop after `deadline_s` at the latest, and report what they covered.
pub fn cases(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C01" => 600_000,
        "C02" => 400_000,
        "C03" => 500_000,
        "C04" => 450_000,
        "C05" => 1_000_000,
        "C06" => 900_000,
        "C07" => 4_800,
        "C08" => 900_000,
        "C09" => 800_000,
        "C10" => 600_000,
        "C11" | "C12" | "C13" => 6_000_000,
        "C14" => 3_000_000,
        "C15" => 5_000_000,
        "C16" => 300_000,
        "C17" | "C19" => 3_000_000,
        "C18" => 600_000,
        "C20" => 9_600,
        "C21" => 1_500_000,
        "C22" => 600_000,
        "C23" => 600_000,
        "C24" => 150_000,
        _ => 100_000,
    };
    if tier == "thorough" {
        quick * 20
    } else {
        quick
    }
}

pub fn deadline_s(tier: &str) -> u64 {
    if tier == "thorough" {
        720
    } else {
        500
    }
}

const WORLD: &str = "A case is one random history (up to 40 operations, several trees, up to about 26 nodes; one in 25: a tree of 60 to 120, rarely 258 to 287 nodes and 14 operations; one case in some thousands: a tree of up to 80 600 nodes with 1 to 3 operations on it) of creations, moves, detachments, replacements, clones, builders, lock and handle operations, borrows and data writes through plain, frozen and hot handles, each compared with the reference model; operation weights favour this property. ";
const FIX: &str = "A case is one random tree (0 to 8 further nodes, sometimes up to 20, rarely 258 to 297; one case in some ten thousands: a tree of up to 80 600 nodes), built through a random mix of edits, as a whole tree or as a part of a bigger one, with the steps below on it. ";

pub fn rule(prop: &str) -> String {
    let (pre, r) = match prop {
        "C01" => (WORLD, "Non-trivial: every navigation query of every node was compared after at least one structural edit, with a live tree of 4 or more nodes."),
        "C02" => (WORLD, "Non-trivial: at least one creation succeeded next to, under or around a node that is not the root."),
        "C03" => (WORLD, "Non-trivial: at least one move, detachment (of a non-root node) or replacement took effect."),
        "C04" => (WORLD, "Non-trivial: at least one edit was rejected, with the state before and after compared in full."),
        "C05" => (WORLD, "Non-trivial: the last handle of some tree was dropped and the destructors run by that were compared with the expected ones."),
        "C06" => (WORLD, "Non-trivial: the last handle of some tree was dropped, with weak references to all its nodes and to the tree watched, also from inside the destructors."),
        "C07" => ("A case is one tree of 20 000 to 35 000 nodes (one in 10: 65 600 to 80 600) of one of 8 shapes, built in one of 5 ways, with 1 to 3 of 23 operations on it and one of 6 ways to drop it, on a thread with a stack of 256 KiB (13 bytes per node). ", "Every case is non-trivial."),
        "C08" => (WORLD, "Non-trivial: at least one token or locked handle was requested while the tree had another one, or a handle was converted to one that needs a token."),
        "C09" => (WORLD, "Non-trivial: a subtree with hot handles inside was moved, detached or replaced, or a token was used with a node of another tree."),
        "C10" => (WORLD, "Non-trivial: at least one move, detachment or replacement took effect; membership of all pairs of handles was compared afterwards."),
        "C11" => (FIX, "1 to 3 random traversals or event walks each. Non-trivial: the tree has 3 or more nodes."),
        "C12" => (FIX, "1 to 3 stable traversals, each driven by a random schedule of front and back steps, peeks, clones, close_current and iterator adapters. Non-trivial: the tree has 3 or more nodes."),
        "C13" => (FIX, "1 to 3 depth-limited or breadth-first traversals, with limits or start depths from 0 to the maximum, each driven by a random schedule. Non-trivial: the tree has 3 or more nodes."),
        "C14" => (FIX, "Events of one subtree through a random handle type, with a random set of borrowed nodes, collected into a random target. Non-trivial: the subtree has 3 or more nodes."),
        "C15" => ("A case is one random stream of events pushed to a builder (new, or started on a random node of a random tree) through random push methods, or collected directly. ", "Non-trivial: the tree of accepted events (with the existing tree) has 3 or more nodes, or the stream was collected directly and has 3 or more events."),
        "C16" => (WORLD, "Non-trivial: at least one subtree of 2 or more nodes was cloned, or a clone was rejected because of a borrow."),
        "C17" => (FIX, "A second subtree: a copy, a copy changed in one datum, position, level or node, another node of the same tree, or unrelated; all handle type pairs, random borrows. Non-trivial: the two subtrees together have 4 or more nodes."),
        "C18" => (WORLD, "Non-trivial: at least one data operation on a handle, with the outcome predicted from the live borrows."),
        "C19" => (FIX, "Random texts (empty, multi-line, trailing newlines, non-ASCII, different for Display and Debug and alternate), written in random chunks; random borrows. Non-trivial: the subtree printed has 3 or more nodes."),
        "C20" => ("A case is one random tree!/tree_node! invocation (up to about 40 nodes, nesting up to 28, 24 forms of data expressions, 3 data types, all delimiters, trailing commas, a data expression that returns early), compiled into a program and run. ", "Non-trivial: 3 or more nodes."),
        "C21" => (WORLD, "Traversers and single events of all kinds are kept during all that and stepped now and then. Non-trivial: a traverser was stepped after an edit took place since its last step."),
        "C22" => (WORLD, "All code of the data type (clone, comparison, formatting, destructor) and iterators that the library runs meanwhile use the library themselves, on all live trees and on trees of their own. Non-trivial: at least one such callback ran while a tree was live through the operation, and what it saw was compared."),
        "C23" => (WORLD, "The allocator counts what is held after the case. Two cases of five: two random trees (0 to 8 further nodes, sometimes up to 28), 1 to 4 of 20 operations each followed by its reversal, repeated 27 to 75 times with the memory held compared, and a traversal with the non-allocating traverser. Non-trivial: an edit took place, or operations were repeated."),
        "C24" => ("A case is two random trees (one of mostly 3000 to 6000 nodes, sometimes 300 to 700; one of up to 4000) of 9 shapes, built in 6 ways, and 1 to 6 of 16 groups of operations on nodes chosen among the root, the deepest, the widest, first, last and middle children and random ones, sometimes with up to 4000 other handles or tokens alive; the steps each operation takes are counted by instrumented code. ", "Every case is non-trivial."),
        _ => ("", ""),
    };
    format!("{pre}{r} Distinct: by a hash of all random choices of the case (counted up to 2 million per worker).")
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "The reference model (harness/src/model.rs and the oracles of each engine) states the documented behaviour correctly.".to_string(),
        "What was not generated was not checked: random search gives no guarantee beyond the cases run.".to_string(),
    ];
    match prop {
        "C10" | "C05" => v.push("Histories that move a tree's root away while a Tree handle of that tree is live are excluded (known finding tree-handle-of-moved-root).".into()),
        "C07" => v.push("Bounded to 80 600 nodes; recursion of less than 13 bytes of stack per level would not be seen.".into()),
        "C20" => v.push("Programs are compiled with recursion_limit 2048.".into()),
        _ => {}
    }
    v
}
