//! What operations cost (C24), in steps (edges of the control flow graph) the compiled code takes, which is
//! the same in every run. Counted only in the build with `--cfg count_steps` (see check.sh).

#![allow(deprecated)]

use std::fmt::Write as _;
use std::hint::black_box;
use std::sync::OnceLock;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::{self as tv, DftEvent};
use dendron::{AdoptAs, FrozenNode, HierarchyEditGrant, HotNode, InsertAs, Node, NodeWeak, Tree};

use crate::check;
use crate::choice::Src;
use crate::cx::*;

#[cfg(count_steps)]
mod counter {
    std::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "incq HARNESS_STEPS(%rip)",
        "ret",
        ".globl __sanitizer_cov_trace_pc_guard_init",
        "__sanitizer_cov_trace_pc_guard_init:",
        "ret",
        options(att_syntax)
    );
    #[no_mangle]
    static mut HARNESS_STEPS: u64 = 0;
    #[inline(always)]
    pub fn now() -> u64 {
        unsafe { std::ptr::read_volatile(&raw const HARNESS_STEPS) }
    }
}
#[cfg(not(count_steps))]
mod counter {
    pub fn now() -> u64 {
        0
    }
}

/// Bound for what must not depend on the size of anything. Observed: up to 151.
const K0: u64 = 1500;
/// Bound per unit. Observed: up to 176.
const K1: u64 = 800;

#[derive(Clone, Debug, PartialEq, Eq)]
struct V(u32);
impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("v")
    }
}

type N = Node<V>;

/// Runs an operation and gives the steps it took.
#[inline(never)]
fn steps<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let a = counter::now();
    let r = black_box(f());
    let b = counter::now();
    (r, b - a)
}

/// Bound per unit of an operation: 4 to 20 times what is observed.
fn per(name: &str) -> u64 {
    if name.contains("::count_") || name.contains("pretty") {
        100
    } else if name.starts_with("comparing") || name.contains("try_eq") || name.contains("non_alloc") {
        300
    } else {
        K1
    }
}

fn judge(name: &str, taken: u64, units: usize, what: &str) {
    log(|| format!("{name}: {taken} steps, {units} units"));
    static STATS: OnceLock<bool> = OnceLock::new();
    if *STATS.get_or_init(|| std::env::var_os("COST_STATS").is_some()) {
        let per = if units == 0 { taken } else { taken.saturating_sub(K0) / units as u64 };
        eprintln!("STAT {} {name}", if units == 0 { format!("const {per}") } else { format!("unit {per}") });
    }
    check!(
        C24,
        taken <= K0 + per(name) * units as u64,
        "{name} took {taken} steps, with {units} {what} (at most {} are allowed)",
        K0 + per(name) * units as u64
    );
}

/// An operation that must not depend on the size of anything.
#[inline(always)]
fn flat<R>(name: &str, f: impl FnOnce() -> R) -> R {
    let (r, s) = steps(f);
    judge(name, s, 0, "units");
    r
}
/// An operation that may take time in proportion to `units`.
#[inline(always)]
fn linear<R>(name: &str, units: usize, what: &str, f: impl FnOnce() -> R) -> R {
    let (r, s) = steps(f);
    judge(name, s, units, what);
    r
}

struct Big {
    w: Vec<NodeWeak<V>>,
    root: N,
}

impl Big {
    fn n(&self, i: usize) -> N {
        match self.w[i % self.w.len()].upgrade() {
            Some(n) => n,
            None => self.root.clone(),
        }
    }
}

fn grant(n: &N) -> HierarchyEditGrant<V> {
    match n.tree().grant_hierarchy_edit() {
        Ok(g) => g,
        Err(_) => fail(C24 | C08, "editing is refused though nothing prohibits it".into()),
    }
}
fn hot(n: &N) -> HotNode<V> {
    match n.clone().bundle_new_hierarchy_edit_grant() {
        Ok(h) => h,
        Err(_) => fail(C24 | C08, "editing is refused though nothing prohibits it".into()),
    }
}
fn frozen(n: &N) -> FrozenNode<V> {
    match n.clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(h) => h,
        Err(_) => fail(C24 | C08, "a prohibition is refused though nothing is granted".into()),
    }
}

fn nodes(n: &N) -> usize {
    n.depth_first_traverse().filter(|e| matches!(e, DftEvent::Open(_))).count()
}
fn depth(n: &N) -> usize {
    n.ancestors().count()
}
fn kids(n: &N) -> usize {
    n.children().count()
}

/// A random tree of about `n` nodes, made in a random way; also leaves behind traces of edits undone.
fn build(src: &mut Src, n: usize) -> Big {
    let style = src.draw(9);
    let way = src.draw(6);
    let name = ["chain", "wide", "comb", "random", "broom", "two levels", "wide below chain", "ternary", "left comb"][style];
    log(|| format!("tree of {n} nodes: {name}, built in way {way}"));
    class(name);
    let root = Node::new_tree(V(0));
    let g = grant(&root);
    let mut h: Vec<N> = vec![root.clone()];
    let salt = src.draw(1 << 16) as u64;
    let width = (n as f64).sqrt() as usize;
    let parent = |i: usize| match style {
        0 => i - 1,
        1 => 0,
        2 => (i - 1) / 2 * 2,
        3 => (crate::choice::mix(&[salt, i as u64]) % i as u64) as usize,
        4 => (i - 1).min(n / 2),
        5 => {
            if i <= width {
                0
            } else {
                (1 + i % width).min(i - 1)
            }
        }
        6 => {
            if i < n / 2 {
                i - 1
            } else {
                (n / 3).min(i - 1)
            }
        }
        7 => (i - 1) / 3,
        _ => {
            if i % 2 == 1 {
                i.saturating_sub(2)
            } else {
                i - 2
            }
        }
    };
    match way {
        // Events.
        0 => {
            let par: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { parent(i) }).collect();
            let mut first = vec![usize::MAX; n];
            let mut next = vec![usize::MAX; n];
            let mut last = vec![usize::MAX; n];
            for i in 1..n {
                let p = par[i];
                if first[p] == usize::MAX {
                    first[p] = i;
                } else {
                    next[last[p]] = i;
                }
                last[p] = i;
            }
            drop(g);
            drop(h);
            drop(root);
            let mut b: TreeBuilder<V> = TreeBuilder::new();
            let mut cur = 0;
            let ok = loop {
                if b.open(V(cur as u32)).is_err() {
                    break false;
                }
                if first[cur] != usize::MAX {
                    cur = first[cur];
                    continue;
                }
                let mut lev = 1;
                while cur != 0 && next[cur] == usize::MAX {
                    cur = par[cur];
                    lev += 1;
                }
                if b.close(lev).is_err() {
                    break false;
                }
                if cur == 0 {
                    break true;
                }
                cur = next[cur];
            };
            let r = b.finish();
            let Ok(root) = r else {
                fail(C24 | C15, "a tree of events that are in order is not built".into());
            };
            check!(C24 | C15, ok, "events in order are refused");
            let w = root
                .depth_first_traverse()
                .filter_map(DftEvent::into_open)
                .map(|x| x.downgrade())
                .collect();
            return Big { w, root };
        }
        1 => {
            for i in 1..n {
                let x = h[parent(i)].create_as_first_child(&g, V(i as u32));
                h.push(x);
            }
        }
        // As sibling of the sibling before where there is one.
        2 => {
            let mut last: Vec<Option<usize>> = vec![None; n];
            for i in 1..n {
                let p = parent(i);
                let x = match last[p] {
                    Some(s) if salt % 2 == 0 => h[s].create_as_next_sibling(&g, V(i as u32)),
                    Some(s) => h[s].create_as_prev_sibling(&g, V(i as u32)),
                    None => h[p].create_as_last_child(&g, V(i as u32)),
                };
                h.push(x);
                last[p] = Some(i);
            }
        }
        _ => {
            for i in 1..n {
                let x = h[parent(i)].create_as_last_child(&g, V(i as u32));
                h.push(x);
            }
        }
    }
    if way == 4 {
        // Many nodes were there once, beside and below these.
        let at = src.draw(n);
        let at = h[at].clone();
        let tmp: Vec<N> = (0..n).map(|i| at.create_as_first_child(&g, V(i as u32))).collect();
        for t in &tmp {
            t.detach_subtree(&g);
        }
    }
    if way == 5 {
        // Everything was another tree before.
        let other = Node::new_tree(V(0));
        let ho = hot(&other);
        let x = other.create_as_last_child(&ho.extract_hierarchy_edit_grant(), V(1));
        for c in root.children().collect::<Vec<_>>() {
            c.detach_insert_subtree(&g, InsertAs::LastChildOf(&hot(&x)));
        }
        drop(ho);
        let w = h.iter().skip(1).map(Node::downgrade).chain([other.downgrade()]).collect();
        return Big { w, root: other };
    }
    Big {
        w: h.iter().map(Node::downgrade).collect(),
        root,
    }
}

/// A node worth looking at.
fn pick(src: &mut Src, b: &Big) -> N {
    let r = &b.root;
    let n = b.w.len();
    match src.draw(10) {
        0 => r.clone(),
        // The widest and its children.
        k @ 1..=4 => {
            let mut best = r.clone();
            for i in (0..n).step_by(1) {
                if let Some(x) = b.w[i].upgrade() {
                    if x.belongs_to_same_tree(r) && x.num_children() > best.num_children() {
                        best = x;
                    }
                }
            }
            match k {
                1 => best,
                2 => best.first_child().unwrap_or(best),
                3 => best.last_child().unwrap_or(best),
                _ => best.children().nth(best.num_children() / 2).unwrap_or(best),
            }
        }
        // Deep ones.
        k @ 5..=6 => {
            let (mut x, mut y) = (r.clone(), r.clone());
            while let Some(c) = if k == 5 { x.last_child() } else { x.first_child() } {
                x = c;
                if src.chance(1, 2000) {
                    y = x.clone();
                }
            }
            if src.chance(1, 3) && !y.is_root() {
                y
            } else {
                x
            }
        }
        7 => {
            let x = b.n(n - 1);
            if x.belongs_to_same_tree(r) {
                x
            } else {
                r.clone()
            }
        }
        _ => {
            let x = b.n(src.draw(n));
            if x.belongs_to_same_tree(r) {
                x
            } else {
                r.clone()
            }
        }
    }
}

macro_rules! queries {
    ($kind:literal, $x:expr, $y:expr, $t:expr) => {{
        let (x, y, t) = (&$x, &$y, &$t);
        macro_rules! q {
            ($m:ident) => {
                let _ = flat(concat!($kind, "::", stringify!($m)), || x.$m());
            };
        }
        q!(tree);
        q!(is_root);
        q!(root);
        q!(parent);
        q!(prev_sibling);
        q!(next_sibling);
        q!(first_sibling);
        q!(last_sibling);
        q!(first_last_sibling);
        q!(first_child);
        q!(last_child);
        q!(first_last_child);
        q!(has_prev_sibling);
        q!(has_next_sibling);
        q!(has_children);
        q!(num_children);
        q!(has_one_child);
        q!(has_multiple_children);
        q!(depth_first_traverse);
        q!(depth_first_reverse_traverse);
        q!(children);
        q!(children_reverse);
        q!(ancestors);
        q!(ancestors_or_self);
        q!(siblings);
        q!(siblings_reverse);
        q!(preceding_siblings_or_self_reverse);
        q!(preceding_siblings_reverse);
        q!(following_siblings_or_self);
        q!(following_siblings);
        q!(to_events);
        q!(clone);
        flat(concat!($kind, "::belongs_to"), || x.belongs_to(t));
        flat(concat!($kind, "::belongs_to_same_tree"), || x.belongs_to_same_tree(y));
        flat(concat!($kind, "::ptr_eq"), || x.ptr_eq(y));
        flat(concat!($kind, "::try_borrow_data"), || x.try_borrow_data().is_ok());
        flat(concat!($kind, "::try_borrow_data_mut"), || x.try_borrow_data_mut().is_ok());
        {
            let p = Node::<V>::from(x.clone());
            let (d, c) = (depth(&p), p.parent().map_or(1, |p| kids(&p)));
            #[allow(deprecated)]
            {
                linear(concat!($kind, "::count_children"), kids(&p), "children", || x.count_children());
                linear(concat!($kind, "::count_preceding_siblings"), c, "siblings", || x.count_preceding_siblings());
                linear(concat!($kind, "::count_following_siblings"), c, "siblings", || x.count_following_siblings());
                linear(concat!($kind, "::count_ancestors"), d, "ancestors", || x.count_ancestors());
            }
        }
    }};
}

/// Walks an iterator from the front.
fn forward<I: Iterator>(name: &str, mut i: I, limit: usize) {
    let (mut worst, mut n) = (0, 0usize);
    loop {
        let (r, s) = steps(|| i.next());
        worst = worst.max(s);
        n += 1;
        if r.is_none() || n > limit {
            break;
        }
    }
    judge(&format!("the most expensive step of {name}"), worst, 0, "units");
    flat(&format!("dropping {name}"), || drop(i));
}
/// Walks an iterator from both ends.
fn both<I: DoubleEndedIterator + Clone>(name: &str, mut i: I, limit: usize, src: &mut Src) {
    let mode = src.draw(4);
    let (mut worst, mut n) = (0, 0usize);
    loop {
        let back = match mode {
            0 => false,
            1 => true,
            2 => n % 2 == 0,
            _ => n % 97 < 48,
        };
        let (r, s) = steps(|| if back { i.next_back() } else { i.next() });
        worst = worst.max(s);
        if n % 512 == 3 {
            flat(&format!("the size hint of {name}"), || i.size_hint());
            let j = flat(&format!("cloning {name}"), || i.clone());
            drop(j);
        }
        n += 1;
        if r.is_none() || n > limit {
            break;
        }
    }
    judge(&format!("the most expensive step of {name}"), worst, 0, "units");
    flat(&format!("dropping {name}"), || drop(i));
}

fn traversals(src: &mut Src, x: &N) {
    let lim = 3 * nodes(&x.root()) + 10;
    match src.draw(9) {
        0 => forward("depth_first_traverse", x.depth_first_traverse(), lim),
        1 => forward("depth_first_reverse_traverse", x.depth_first_reverse_traverse(), lim),
        2 => {
            forward("children", x.children(), lim);
            forward("children_reverse", x.children_reverse(), lim);
            forward("ancestors", x.ancestors(), lim);
            forward("siblings", x.siblings(), lim);
            forward("siblings_reverse", x.siblings_reverse(), lim);
            forward("following_siblings", x.following_siblings(), lim);
            forward("following_siblings_or_self", x.following_siblings_or_self(), lim);
            forward("preceding_siblings_reverse", x.preceding_siblings_reverse(), lim);
            forward("preceding_siblings_or_self_reverse", x.preceding_siblings_or_self_reverse(), lim);
        }
        3 => both("depth_first_traverse_stable", frozen(x).depth_first_traverse_stable(), lim, src),
        4 => {
            let f = frozen(x);
            macro_rules! b {
                ($m:ident) => {{
                    let i = flat(concat!("making ", stringify!($m)), || f.$m());
                    both(stringify!($m), i, lim, src)
                }};
            }
            b!(children_stable);
            b!(siblings_stable);
            b!(preceding_siblings_or_self_stable);
            b!(preceding_siblings_stable);
            b!(following_siblings_or_self_stable);
            b!(following_siblings_stable);
        }
        5 => {
            let f = frozen(x);
            let d = match src.draw(4) {
                0 => None,
                1 => Some(src.draw(3)),
                2 => Some(src.draw(3000)),
                _ => Some(usize::MAX),
            };
            let i = flat("making shallow_depth_first_traverse_stable", || f.shallow_depth_first_traverse_stable(d));
            both("shallow_depth_first_traverse_stable", i, lim, src);
        }
        6 => {
            let f = frozen(x);
            let n = nodes(x);
            let d = if src.chance(1, 2) { 0 } else { src.draw(4) };
            let mut i = linear("making allocating_breadth_first_traverse_stable", if d == 0 { 0 } else { n }, "nodes", || {
                f.allocating_breadth_first_traverse_stable(d)
            });
            let (mut worst, mut at) = (0, 0);
            loop {
                let (r, s) = steps(|| i.next());
                let k = r.as_ref().map_or(0, |r| r.0.num_children());
                let s = s.saturating_sub(K1 * k as u64);
                if s > worst {
                    (worst, at) = (s, k);
                }
                if at % 1024 == 1 {
                    flat("peeking into allocating_breadth_first_traverse_stable", || i.peek());
                }
                if r.is_none() {
                    break;
                }
            }
            judge("the most expensive step of allocating_breadth_first_traverse_stable beyond its children", worst, 0, "units");
            let i = f.allocating_breadth_first_traverse_stable(d);
            linear("allocating_breadth_first_traverse_stable, all of it,", n, "nodes", || i.count());
        }
        7 => {
            // Single events.
            macro_rules! walk {
                ($name:literal, $start:expr, $fwd:expr) => {{
                    let mut e = Some($start);
                    let (mut worst, mut n) = (0, 0);
                    while let Some(ev) = e {
                        let (r, s) = steps(|| if $fwd { ev.next() } else { ev.prev() });
                        worst = worst.max(s);
                        if n % 1024 == 0 {
                            linear(concat!($name, "::close_current"), lim, "events", || ev.close_current());
                        }
                        n += 1;
                        e = if n > lim { None } else { r };
                    }
                    judge(concat!("the most expensive ", $name, " step"), worst, 0, "units");
                }};
            }
            let fwd = src.chance(1, 2);
            match src.draw(3) {
                0 => walk!("DftEvent<Node>", if fwd { DftEvent::Open(x.clone()) } else { DftEvent::Close(x.clone()) }, fwd),
                1 => walk!("DftEvent<FrozenNode>", if fwd { DftEvent::Open(frozen(x)) } else { DftEvent::Close(frozen(x)) }, fwd),
                _ => walk!("DftEvent<HotNode>", if fwd { DftEvent::Open(hot(x)) } else { DftEvent::Close(hot(x)) }, fwd),
            }
        }
        _ => {
            // Leaving subtrees early.
            let skip = 1 + src.draw(3);
            match src.draw(3) {
                0 => {
                    let mut i = x.depth_first_traverse();
                    let mut n = 0;
                    while i.next().is_some() && n < 300 {
                        n += 1;
                        if n % skip == 0 {
                            linear("DepthFirstTraverser::close_current", lim, "events", || i.close_current());
                        }
                    }
                }
                1 => {
                    let mut i = tv::StableDepthFirstTraverser::with_toplevel(Some(frozen(x)));
                    let mut n = 0;
                    while i.next().is_some() && n < 300 {
                        n += 1;
                        if n % skip == 0 {
                            linear("StableDepthFirstTraverser::close_current", lim, "events", || i.close_current());
                        }
                    }
                }
                _ => {
                    let mut i = tv::StableShallowDepthFirstTraverser::with_toplevel(Some(frozen(x)), None);
                    let mut n = 0;
                    while i.next().is_some() && n < 300 {
                        n += 1;
                        if n % skip == 0 {
                            linear("StableShallowDepthFirstTraverser::close_current", lim, "events", || i.close_current());
                        }
                    }
                }
            }
        }
    }
}

fn at(kind: usize, h: &HotNode<V>) -> InsertAs<&HotNode<V>> {
    match kind {
        0 => InsertAs::FirstChildOf(h),
        1 => InsertAs::LastChildOf(h),
        2 => InsertAs::PreviousSiblingOf(h),
        _ => InsertAs::NextSiblingOf(h),
    }
}

/// Counts what is written and keeps nothing.
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

fn handles(src: &mut Src, b: &Big, x: &N, y: &N) {
    // Many handles of all kinds, of one node or all over the tree.
    let many = src.range(0, 4000);
    let spread = src.chance(1, 2);
    let pickn = |i: usize| if spread { b.n(i * 7) } else { x.clone() };
    match src.draw(5) {
        0 => {
            let keep: Vec<N> = (0..many).map(pickn).collect();
            queries!("Node", *x, *y, b.root.tree());
            let c = flat("Node::clone", || x.clone());
            flat("dropping a node handle", || drop(c));
            for k in keep.into_iter().take(2) {
                flat("dropping a node handle", || drop(k));
            }
        }
        1 => {
            let f = frozen(x);
            let keep: Vec<FrozenNode<V>> = (0..many)
                .filter_map(|i| {
                    let n = pickn(i);
                    n.belongs_to_same_tree(x).then(|| frozen(&n))
                })
                .collect();
            let c = flat("FrozenNode::clone", || f.clone());
            let tok = flat("extract_hierarchy_edit_prohibition", || f.extract_hierarchy_edit_prohibition());
            let c2 = flat("Node::bundle_hierarchy_edit_prohibition", || {
                y.clone().bundle_hierarchy_edit_prohibition(&tok)
            });
            let c3 = flat("HierarchyEditProhibition::try_clone", || tok.try_clone());
            flat("HierarchyEditProhibition::is_valid_for_node", || tok.is_valid_for_node(y));
            let e = flat("a refused grant", || y.clone().bundle_new_hierarchy_edit_grant());
            check!(C24 | C08, e.is_err(), "a grant is given though there is a prohibition");
            let e = flat("a refused grant", || x.tree().grant_hierarchy_edit());
            check!(C24 | C08, e.is_err(), "a grant is given though there is a prohibition");
            flat("dropping a frozen handle", || drop(c));
            flat("dropping a frozen handle", || drop(c2));
            flat("dropping a prohibition", || drop(c3));
            flat("dropping a prohibition", || drop(tok));
            flat("FrozenNode::plain", || f.plain());
            queries!("FrozenNode", f, frozen(y), b.root.tree());
            flat("dropping a frozen handle", || drop(f));
            drop(keep);
        }
        2 => {
            let f = hot(x);
            let keep: Vec<HotNode<V>> = (0..many)
                .filter_map(|i| {
                    let n = pickn(i);
                    n.belongs_to_same_tree(x).then(|| hot(&n))
                })
                .collect();
            let c = flat("HotNode::clone", || f.clone());
            let tok = flat("extract_hierarchy_edit_grant", || f.extract_hierarchy_edit_grant());
            let c2 = flat("Node::bundle_hierarchy_edit_grant", || y.clone().bundle_hierarchy_edit_grant(&tok));
            let c3 = flat("HierarchyEditGrant::clone", || tok.clone());
            flat("HierarchyEditGrant::is_valid_for_node", || tok.is_valid_for_node(y));
            let e = flat("a refused prohibition", || y.clone().bundle_new_hierarchy_edit_prohibition());
            check!(C24 | C08, e.is_err(), "a prohibition is given though there is a grant");
            let e = flat("a refused prohibition", || x.tree().prohibit_hierarchy_edit());
            check!(C24 | C08, e.is_err(), "a prohibition is given though there is a grant");
            flat("dropping a hot handle", || drop(c));
            flat("dropping a hot handle", || drop(c2));
            flat("dropping a grant", || drop(c3));
            flat("dropping a grant", || drop(tok));
            flat("HotNode::plain", || f.plain());
            queries!("HotNode", f, hot(y), b.root.tree());
            flat("dropping a hot handle", || drop(f));
            drop(keep);
        }
        3 => {
            let keep: Vec<_> = (0..many).map(|i| pickn(i).downgrade()).collect();
            let w = flat("Node::downgrade", || x.downgrade());
            let u = flat("NodeWeak::upgrade", || w.upgrade());
            check!(C24 | C06, u.is_some(), "a weak reference to a live node does not upgrade");
            let w2 = flat("NodeWeak::clone", || w.clone());
            flat("dropping a weak reference", || drop(w2));
            flat("dropping a node handle", || drop(u));
            let t = flat("Node::tree", || x.tree());
            let tw = flat("Tree::downgrade", || t.downgrade());
            flat("TreeWeak::upgrade", || tw.upgrade());
            flat("Tree::root", || t.root());
            flat("Tree::ptr_eq", || t.ptr_eq(&y.tree()));
            let t2 = flat("Tree::clone", || t.clone());
            flat("dropping a tree handle", || drop(t2));
            drop(keep);
        }
        _ => {
            let t = x.tree();
            if src.chance(1, 2) {
                let keep: Vec<_> = (0..many).map(|_| t.grant_hierarchy_edit()).collect();
                let g = flat("Tree::grant_hierarchy_edit", || t.grant_hierarchy_edit());
                flat("dropping a grant", || drop(g));
                let h = flat("Node::bundle_new_hierarchy_edit_grant", || x.clone().bundle_new_hierarchy_edit_grant());
                flat("dropping a hot handle", || drop(h));
                drop(keep);
            } else {
                let keep: Vec<_> = (0..many).map(|_| t.prohibit_hierarchy_edit()).collect();
                let g = flat("Tree::prohibit_hierarchy_edit", || t.prohibit_hierarchy_edit());
                flat("dropping a prohibition", || drop(g));
                let h = flat("Node::bundle_new_hierarchy_edit_prohibition", || {
                    x.clone().bundle_new_hierarchy_edit_prohibition()
                });
                flat("dropping a frozen handle", || drop(h));
                drop(keep);
            }
        }
    }
}

fn creations(src: &mut Src, x: &N) {
    let hotly = src.chance(1, 3);
    let k = src.draw(6);
    let times = if src.chance(1, 4) { 40 } else { 1 };
    let h = hot(x);
    let g = h.extract_hierarchy_edit_grant();
    for _ in 0..times {
        match k {
            0..=3 => {
                let a = [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling][k];
                if hotly {
                    drop(flat("HotNode::try_create_node_as", || h.try_create_node_as(V(9), a)));
                } else {
                    drop(flat("Node::try_create_node_as", || x.try_create_node_as(&g, V(9), a)));
                }
            }
            4 => {
                if hotly {
                    drop(flat("HotNode::create_as_interrupting_parent", || h.create_as_interrupting_parent(V(9))));
                } else {
                    drop(flat("Node::create_as_interrupting_parent", || x.create_as_interrupting_parent(&g, V(9))));
                }
            }
            _ => {
                let c = kids(x);
                if hotly {
                    drop(linear("HotNode::create_as_interrupting_child", c, "children", || {
                        h.create_as_interrupting_child(V(9))
                    }));
                } else {
                    drop(linear("Node::create_as_interrupting_child", c, "children", || {
                        x.create_as_interrupting_child(&g, V(9))
                    }));
                }
            }
        }
    }
}

/// One operation.
fn op(src: &mut Src, b: &mut Big, other: &mut Big) {
    b.root = b.root.root();
    other.root = other.root.root();
    let x = pick(src, b);
    let y = pick(src, b);
    let k = src.weighted(&[3, 4, 6, 6, 3, 3, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1]);
    log(|| {
        format!(
            "operation {k} on a node of depth {} with {} children, in a tree of {} nodes",
            depth(&x),
            kids(&x),
            nodes(&b.root)
        )
    });
    finger(k as u64);
    let old = set_scope(C24 | C01);
    match k {
        0 => queries!("Node", x, y, b.root.tree()),
        1 => handles(src, b, &x, &y),
        2 => traversals(src, &x),
        3 => creations(src, &x),
        // Detaching.
        4 => {
            let g = grant(&x);
            let n = if x.is_root() { 0 } else { nodes(&x) };
            linear("detach_subtree", n, "nodes in the subtree", || x.detach_subtree(&g));
        }
        // Moving inside the tree.
        5 => {
            let kind = src.draw(4);
            let h = hot(&y);
            let g = h.extract_hierarchy_edit_grant();
            let d = depth(&y) + 1;
            let hx = src.chance(1, 3).then(|| x.bundle_hierarchy_edit_grant(&g));
            let r = match &hx {
                Some(hx) => linear("HotNode::try_detach_insert_subtree inside a tree", d, "ancestors of the destination", || {
                    hx.try_detach_insert_subtree(at(kind, &h))
                }),
                None => {
                    let x = pick(src, b);
                    linear("Node::try_detach_insert_subtree inside a tree", d, "ancestors of the destination", || {
                        x.try_detach_insert_subtree(&g, at(kind, &h))
                    })
                }
            };
            log(|| format!("  result {r:?}"));
        }
        // Moving to the other tree.
        6 => {
            let z = pick(src, other);
            let h = hot(&z);
            let kind = src.draw(4);
            let g = grant(&x);
            if x.is_root() {
                return;
            }
            let n = nodes(&x);
            let inner: Vec<HotNode<V>> = if src.chance(1, 3) {
                x.depth_first_traverse().filter_map(DftEvent::into_open).map(|n| hot(&n)).collect()
            } else {
                vec![]
            };
            let r = linear("try_detach_insert_subtree into another tree", n, "nodes in the subtree", || {
                x.try_detach_insert_subtree(&g, at(kind, &h))
            });
            log(|| format!("  result {r:?}"));
            drop(inner);
        }
        7 => {
            let g = grant(&x);
            let c = kids(&x);
            // (What has no handle afterwards would be destroyed.)
            let child = x.first_child();
            let r = linear("try_replace_with_children", c, "children", || x.try_replace_with_children(&g));
            log(|| format!("  result {r:?}"));
            if let (Some(c), Ok(())) = (child, r) {
                if x.ptr_eq(&b.root) {
                    b.root = c;
                }
            }
        }
        // Copies.
        8 => {
            let n = nodes(&x);
            match src.draw(4) {
                0 => drop(linear("try_clone_subtree", n, "nodes in the subtree", || x.try_clone_subtree())),
                1 => {
                    let _d = y.borrow_data_mut();
                    let r = linear("a refused copy", n, "nodes in the subtree", || x.try_clone_subtree());
                    drop(r);
                }
                2 => {
                    let z = if src.chance(1, 2) { pick(src, other) } else { y.clone() };
                    let h = hot(&z);
                    let kind = src.draw(4);
                    let r = linear("try_clone_insert_subtree", n, "nodes in the subtree", || {
                        x.try_clone_insert_subtree(at(kind, &h))
                    });
                    drop(r);
                }
                _ => {
                    let n = nodes(&b.root);
                    let t = linear("Tree::clone_tree", n, "nodes", || b.root.tree().clone_tree());
                    linear("dropping a whole tree", n, "nodes", || drop(t));
                }
            }
        }
        // Comparisons.
        9 => {
            let c = x.clone_subtree();
            let n = nodes(&x) + nodes(&y);
            linear("comparing equal subtrees", n, "nodes", || x == c);
            linear("comparing subtrees", n, "nodes", || x == y);
            let _ = linear("Node::try_eq", n, "nodes", || x.try_eq(&y));
            let (m, o) = (nodes(&b.root), nodes(&other.root));
            linear("comparing trees", m + o, "nodes", || b.root.tree() == other.root.tree());
        }
        // Events, and trees out of them.
        10 => {
            let n = nodes(&x);
            let (mut worst, mut ev): (u64, Vec<Event<V>>) = (0, vec![]);
            let mut i = flat("to_events", || x.to_events());
            loop {
                let (r, s) = steps(|| i.next());
                let levels = match &r {
                    Some(Ok(Event::Close(n))) => *n as u64,
                    _ => 0,
                };
                worst = worst.max(s.saturating_sub(K1 * levels));
                match r {
                    Some(Ok(e)) if ev.len() <= 2 * n + 2 => ev.push(e),
                    _ => break,
                }
            }
            judge("the most expensive step of to_events", worst, 0, "units");
            if src.chance(1, 2) {
                let e = ev.clone();
                let r = linear("collecting events", ev.len(), "events", || e.into_iter().collect::<Result<N, _>>());
                let m = r.as_ref().map_or(0, nodes);
                linear("dropping a whole tree", m, "nodes", || drop(r));
                let r = linear("collecting traversal events", ev.len(), "events", || {
                    x.depth_first_traverse().collect::<Result<N, _>>()
                });
                check!(C24 | C15, r.is_ok(), "traversal events are not collected");
            } else {
                let z = pick(src, other);
                let mut t: TreeBuilder<V> = if src.chance(1, 2) {
                    TreeBuilder::new()
                } else {
                    flat("TreeBuilder::with_root", || TreeBuilder::with_root(hot(&z)))
                };
                let mut worst = 0;
                for e in ev {
                    let units = match &e {
                        Event::Open(_) => 0,
                        Event::Close(n) => *n as u64,
                    };
                    let (r, s) = steps(|| t.push_event(e));
                    worst = worst.max(s.saturating_sub(K1 * units));
                    if r.is_err() {
                        break;
                    }
                }
                judge("the most expensive event pushed to a builder", worst, 0, "units");
                flat("TreeBuilder::is_root_closed", || t.is_root_closed());
                flat("TreeBuilder::is_root_available", || t.is_root_available());
                let r = flat("TreeBuilder::finish", || t.finish());
                drop(r);
            }
        }
        // Printing.
        11 => {
            let mut s = Sink(0);
            let _ = flat("debug_print_local", || write!(s, "{:?}", x.debug_print_local()));
            let f = frozen(&x);
            let _ = flat("debug_print_local", || write!(s, "{:?}", f.debug_print_local()));
            drop(f);
            let _ = flat("Node::fmt", || write!(s, "{:?}", x.downgrade()));
            let n = nodes(&x);
            if n > 600 && !src.chance(1, 8) {
                return;
            }
            // What is printed grows with the depth: not too much of it.
            if x.depth_first_traverse().filter_map(DftEvent::into_open).nth(900).is_some_and(|d| depth(&d) > 600) {
                return;
            }
            let mut s = Sink(0);
            let (_, t) = match src.draw(2) {
                0 => steps(|| write!(s, "{}", x.debug_pretty_print())),
                _ => steps(|| write!(s, "{:?}", x.debug_pretty_print())),
            };
            judge("debug_pretty_print", t, n + s.0, "nodes and bytes printed");
        }
        // The end of a tree.
        12 => {
            let n = nodes(&b.root);
            drop(y);
            let mut root = x;
            std::mem::swap(&mut root, &mut b.root);
            drop(root);
            let last = std::mem::replace(&mut b.root, Node::new_tree(V(0)));
            b.w = vec![b.root.downgrade()];
            linear("dropping the last handle of a tree", n, "nodes", || drop(last));
        }
        // Refusals.
        13 => {
            let h = hot(&x);
            let g = h.extract_hierarchy_edit_grant();
            let r = b.root.clone();
            let hr = hot(&r);
            drop(flat("a refused creation", || r.try_create_as_next_sibling(&g, V(1))));
            drop(flat("a refused creation", || r.try_create_as_prev_sibling(&g, V(1))));
            drop(flat("a refused move", || x.try_detach_insert_subtree(&g, InsertAs::NextSiblingOf(&hr))));
            let d = depth(&y) + 1;
            let hy = hot(&y);
            let e = linear("a move of the root below itself", d, "ancestors of the destination", || {
                r.try_detach_insert_subtree(&g, InsertAs::LastChildOf(&hy))
            });
            check!(C24 | C04, e.is_err(), "the root is moved below itself");
            if kids(&r) != 1 {
                let e = flat("a refused replacement", || r.try_replace_with_children(&g));
                log(|| format!("  result {e:?}"));
            }
        }
        // The non-allocating traverser: documented as quadratic.
        14 => {
            let n = nodes(&x);
            if n > 700 {
                return;
            }
            let f = frozen(&x);
            let i = flat("making non_allocating_breadth_first_traverse_stable", || {
                f.non_allocating_breadth_first_traverse_stable(0)
            });
            let (c, s) = steps(|| i.count());
            judge("non_allocating_breadth_first_traverse_stable, all of it,", s, n * n, "pairs of nodes");
            check!(C24 | C13, c == n, "{c} of {n} nodes are traversed breadth-first");
        }
        _ => {
            // A hot tree given to a builder, then left.
            let t: Tree<V> = b.root.tree();
            let mut s = Sink(0);
            let n = nodes(&b.root);
            if n > 700 {
                let _ = flat("Tree::fmt", || write!(s, "{:?}", t.debug_print_local()));
            } else {
                let d = n + depth_sum(&b.root);
                let (_, c) = steps(|| write!(s, "{:?}", x.debug_print_subtree()));
                judge("debug_print_subtree", c, s.0 + d, "bytes printed and depths of nodes");
            }
        }
    }
    set_scope(old);
}

fn depth_sum(r: &N) -> usize {
    let (mut d, mut sum) = (0usize, 0);
    for e in r.depth_first_traverse() {
        match e {
            DftEvent::Open(_) => {
                d += 1;
                sum += d;
            }
            DftEvent::Close(_) => d -= 1,
        }
    }
    sum
}

pub fn run(src: &mut Src) {
    let old = set_scope(C24 | C01);
    let n = if src.chance(1, 6) { src.range(300, 700) } else { src.range(3000, 6000) };
    let a = counter::now();
    let mut b = build(src, n);
    // Otherwise nothing is measured and every check of this property would pass.
    assert!(counter::now() - a > n as u64, "this build does not count steps");
    let m = if src.chance(1, 2) { src.range(1, 4) } else { src.range(1000, 4000) };
    let mut other = build(src, m);
    for _ in 0..src.range(1, 6) {
        src.mark();
        op(src, &mut b, &mut other);
    }
    nontrivial();
    set_scope(old);
}
