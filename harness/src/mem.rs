//! Memory (C23): an allocator that counts, and histories that lead back to where they began.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Write as _};

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{AdoptAs, FrozenNode, HierarchyEditGrant, HotNode, InsertAs, Node, NodeWeak, Tree};

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::fixture::{shape, Lim};

pub struct Counting;

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn add(c: &'static std::thread::LocalKey<Cell<isize>>, v: isize) {
    let _ = c.try_with(|c| c.set(c.get() + v));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(&BYTES, l.size() as isize);
        add(&BLOCKS, 1);
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(&BYTES, -(l.size() as isize));
        add(&BLOCKS, -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(&BYTES, l.size() as isize);
        add(&BLOCKS, 1);
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(&BYTES, n as isize - l.size() as isize);
        let _ = CALLS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Bytes and blocks this thread has allocated and not freed.
pub fn live() -> (isize, isize) {
    (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
/// Allocations (and growths) of this thread so far.
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// Runs a case, and fails it if memory is still held after it ended, whenever it is run again.
pub fn accounted(src: &mut Src, f: impl Fn(&mut Src)) {
    let own = |s: &Src| {
        let (t, m) = (s.trace.capacity(), s.marks.capacity());
        (
            (t * 4 + m * std::mem::size_of::<usize>()) as isize,
            isize::from(t > 0) + isize::from(m > 0),
        )
    };
    let (o0, l0) = (own(src), live());
    f(src);
    let (o1, l1) = (own(src), live());
    let diff = (l1.0 - l0.0 - (o1.0 - o0.0), l1.1 - l0.1 - (o1.1 - o0.1));
    if diff == (0, 0) {
        return;
    }
    // Something of the harness (a first use, a log), or a leak: then it happens each time.
    let trace = src.trace.clone();
    let quiet = Quiet::new();
    let again = || {
        let l = live();
        let mut s = Src::replay(trace.clone());
        f(&mut s);
        drop(s);
        let m = live();
        (m.0 - l.0, m.1 - l.1)
    };
    again();
    again();
    let d = [again(), again(), again(), again()];
    drop(quiet);
    check!(
        C23,
        d.iter().any(|d| d.0 <= 0 && d.1 <= 0),
        "{} bytes in {} blocks are never given back (bytes, blocks in 4 repetitions: {d:?})",
        d[0].0,
        d[0].1
    );
}

/// Data that owns memory.
#[derive(Clone, Debug, PartialEq, Eq)]
struct V(Box<u32>);

impl V {
    fn new(v: u32) -> Self {
        V(Box::new(v))
    }
}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

type N = Node<V>;

/// A tree and weak references to its nodes in document order.
struct T {
    w: Vec<NodeWeak<V>>,
    par: Vec<Option<usize>>,
}

impl T {
    fn new(par: Vec<Option<usize>>, keep: &mut Vec<N>) -> Self {
        let root = Node::new_tree(V::new(0));
        let g = grant(&root);
        let mut h = vec![root.clone()];
        for (i, p) in par.iter().enumerate().skip(1) {
            let n = h[p.unwrap()].create_as_last_child(&g, V::new(i as u32));
            h.push(n);
        }
        keep.push(root);
        T {
            w: h.iter().map(Node::downgrade).collect(),
            par,
        }
    }
    fn n(&self, i: usize) -> N {
        match self.w[i].upgrade() {
            Some(n) => n,
            None => fail(C23 | C06, format!("weak reference to live node {i} does not upgrade")),
        }
    }
    fn len(&self) -> usize {
        self.w.len()
    }
    /// Whether `a` is `b` or an ancestor of it.
    fn above(&self, a: usize, b: usize) -> bool {
        let mut x = Some(b);
        while let Some(y) = x {
            if y == a {
                return true;
            }
            x = self.par[y];
        }
        false
    }
}

fn grant(n: &N) -> HierarchyEditGrant<V> {
    match n.tree().grant_hierarchy_edit() {
        Ok(g) => g,
        Err(_) => fail(C23 | C08, "editing is refused though nothing prohibits it".into()),
    }
}
fn hot(n: N) -> HotNode<V> {
    match n.bundle_new_hierarchy_edit_grant() {
        Ok(h) => h,
        Err(_) => fail(C23 | C08, "editing is refused though nothing prohibits it".into()),
    }
}
fn frozen(n: N) -> FrozenNode<V> {
    match n.bundle_new_hierarchy_edit_prohibition() {
        Ok(h) => h,
        Err(_) => fail(C23 | C08, "a prohibition is refused though nothing is granted".into()),
    }
}

fn at(kind: usize, h: &HotNode<V>) -> InsertAs<&HotNode<V>> {
    match kind {
        0 => InsertAs::FirstChildOf(h),
        1 => InsertAs::LastChildOf(h),
        2 => InsertAs::PreviousSiblingOf(h),
        _ => InsertAs::NextSiblingOf(h),
    }
}
fn adopt(kind: usize) -> AdoptAs {
    match kind {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}

/// Where a node that is not a root is, so that it can be put there again.
struct Place {
    kind: usize,
    anchor: N,
}
fn place(n: &N) -> Option<Place> {
    let p = n.parent()?;
    Some(match n.next_sibling() {
        Some(s) => Place { kind: 2, anchor: s },
        None => Place { kind: 1, anchor: p },
    })
}
fn put(n: &N, p: Place) {
    let g = grant(n);
    let h = hot(p.anchor);
    let r = n.try_detach_insert_subtree(&g, at(p.kind, &h));
    check!(C23 | C03, r.is_ok(), "putting a node back is refused: {r:?}");
}

const OPS: usize = 20;
const NAMES: [&str; OPS] = [
    "create and remove",
    "move and move back",
    "move to the other tree and back",
    "detach and put back",
    "handles",
    "tokens",
    "copy",
    "copy into a tree and remove",
    "traversals",
    "events",
    "abandoned builder",
    "failing builder",
    "print",
    "compare",
    "refused edits",
    "interrupting parent and replace",
    "interrupting child and replace",
    "whole tree moved and detached",
    "refused copy",
    "build and drop a tree",
];

#[derive(Clone, Copy)]
struct Op {
    k: usize,
    a: usize,
    b: usize,
    c: usize,
}

fn tags_of(k: usize) -> Tags {
    C23 | match k {
        0 => C02 | C03,
        1..=3 | 15..=17 => C03,
        4 => C05,
        5 => C08,
        6 | 7 | 18 => C16,
        8 => C11,
        9 => C14,
        10 | 11 => C15,
        12 => C19,
        13 => C17,
        14 => C04,
        _ => C01,
    }
}

/// Takes a few steps of an iterator, copies it, and drops both.
fn some<I: Iterator + Clone>(mut i: I, k: usize) {
    for _ in 0..k {
        if i.next().is_none() {
            break;
        }
    }
    let mut j = i.clone();
    j.next();
    drop(i);
    j.next();
}

/// One operation and its reversal.
fn cycle(ts: &[T; 2], o: Op) {
    let old = set_scope(tags_of(o.k));
    let t = &ts[0];
    let ia = o.a % t.len();
    let ib = o.b % t.len();
    let x = t.n(ia);
    let y = t.n(ib);
    match o.k {
        0 => {
            let g = grant(&x);
            if let Ok(n) = x.try_create_node_as(&g, V::new(1), adopt(o.c % 4)) {
                let w = n.create_as_first_child(&g, V::new(2)).downgrade();
                n.detach_subtree(&g);
                drop(g);
                drop(n);
                check!(C23 | C06, w.upgrade().is_none(), "a removed node is alive");
            }
        }
        1 => {
            let Some(p) = place(&x) else { return };
            let dest_parent = if o.c % 4 < 2 { Some(ib) } else { t.par[ib] };
            if ia == ib || dest_parent.map_or(true, |d| t.above(ia, d)) {
                return;
            }
            {
                let g = grant(&x);
                let h = y.bundle_hierarchy_edit_grant(&g);
                let r = x.try_detach_insert_subtree(&g, at(o.c % 4, &h));
                check!(C23 | C03, r.is_ok(), "a possible move is refused: {r:?}");
            }
            put(&x, p);
        }
        2 => {
            let Some(p) = place(&x) else { return };
            let z = ts[1].n(o.b % ts[1].len());
            let kind = if z.is_root() { o.c % 2 } else { o.c % 4 };
            {
                let g = grant(&x);
                let h = hot(z);
                // Hot handles of moved nodes take their locks along.
                let inner = (o.c % 3 == 0).then(|| hot(y.clone()));
                let r = x.try_detach_insert_subtree(&g, at(kind, &h));
                check!(C23 | C03, r.is_ok(), "a possible move is refused: {r:?}");
                drop(inner);
            }
            put(&x, p);
        }
        3 => {
            let Some(p) = place(&x) else { return };
            x.detach_subtree(&grant(&x));
            if o.c % 2 == 0 {
                drop(x.tree().downgrade());
            }
            put(&x, p);
        }
        4 => {
            let w = x.downgrade();
            let w2 = w.clone();
            let tw = x.tree().downgrade();
            drop(w);
            let tr: Option<Tree<V>> = tw.upgrade();
            let r = tr.as_ref().map(Tree::root);
            let a = w2.upgrade();
            drop((x.parent(), x.next_sibling(), x.prev_sibling(), x.first_last_child()));
            if o.c % 2 == 0 {
                let h = hot(x.clone());
                let h2 = h.clone();
                drop(h);
                drop((h2.root(), h2.plain(), h2.first_child()));
            } else {
                let f = frozen(x.clone());
                let f2 = f.clone();
                drop(f);
                drop((f2.root(), f2.plain(), f2.last_sibling()));
            }
            drop((a, r, tr, tw, w2));
            let _ = o;
        }
        5 => {
            let tr = y.tree();
            if o.c % 2 == 0 {
                let g = tr.grant_hierarchy_edit();
                let p = tr.prohibit_hierarchy_edit();
                check!(C23 | C08, g.is_ok() && p.is_err(), "wrong answers about locks");
                if let Ok(g) = g {
                    let k = g.try_clone();
                    drop((hot(x).extract_hierarchy_edit_grant(), g, k));
                }
            } else {
                let p = tr.prohibit_hierarchy_edit();
                let g = tr.grant_hierarchy_edit();
                check!(C23 | C08, g.is_err() && p.is_ok(), "wrong answers about locks");
                if let Ok(p) = p {
                    let k = p.try_clone();
                    let f = frozen(x);
                    drop((f.extract_hierarchy_edit_prohibition(), p, k));
                }
            }
        }
        6 => {
            if o.c % 2 == 0 {
                drop(x.try_clone_subtree());
            } else {
                let n = x.tree().clone_tree();
                let leaf = n.root().last_child();
                drop(n);
                drop(leaf);
            }
        }
        7 => {
            let g = grant(&x);
            let h = y.bundle_hierarchy_edit_grant(&g);
            if let Ok(n) = x.try_clone_insert_subtree(at(o.c % 4, &h)) {
                n.detach_subtree();
            }
        }
        8 => {
            let k = o.b % 9;
            match o.c % 8 {
                0 => some(x.depth_first_traverse(), k),
                1 => some(x.depth_first_reverse_traverse(), k),
                2 => some(x.siblings_reverse(), k),
                3 => some(x.ancestors(), k),
                4 => some(frozen(x).depth_first_traverse_stable(), k),
                5 => some(frozen(x).shallow_depth_first_traverse_stable(Some(k)), k),
                6 => some(frozen(x).allocating_breadth_first_traverse_stable(k % 3), k),
                _ => {
                    let e = DftEvent::Open(x);
                    drop((e.next(), e.prev(), e.close_current()));
                }
            }
        }
        9 => {
            some(x.to_events(), o.b % 9);
            let all: Vec<Event<V>> = x.to_events().filter_map(Result::ok).collect();
            match o.c % 3 {
                0 => drop(all.into_iter().collect::<Result<N, TreeBuildError>>()),
                1 => drop(all.into_iter().collect::<Result<FrozenNode<V>, TreeBuildError>>()),
                _ => drop(all.into_iter().collect::<Result<Tree<V>, TreeBuildError>>()),
            }
        }
        10 => {
            let mut b = TreeBuilder::new();
            for i in 0..o.c % 6 {
                let _ = b.open(V::new(i as u32));
                if o.b >> i & 1 == 1 {
                    let _ = b.close(1);
                }
            }
            match o.a % 3 {
                0 => drop(b),
                1 => drop(b.finish()),
                _ => drop(b.finish_opt()),
            }
        }
        11 => {
            let ev = x.to_events().filter_map(Result::ok).take(o.b % 12);
            let extra = [Event::Close(o.c % 5), Event::Open(V::new(5)), Event::Close(9)];
            drop(ev.chain(extra).collect::<Result<N, TreeBuildError>>());
        }
        12 => {
            let mut s = String::new();
            let b = (o.c % 3 == 0).then(|| y.borrow_data_mut());
            let _ = match o.c % 4 {
                0 => write!(s, "{}", x.debug_pretty_print()),
                1 => write!(s, "{:#?}", x.debug_pretty_print()),
                2 => write!(s, "{:?}", x.debug_print_subtree()),
                _ => write!(s, "{:?}", x.debug_print_local()),
            };
            drop(b);
        }
        13 => {
            let c = x.clone_subtree();
            let _ = x.try_eq(&c);
            let _ = x.try_eq(&y);
            let b = c.borrow_data_mut();
            let _ = x.try_eq(&c);
            drop(b);
        }
        14 => {
            let g = grant(&x);
            let h = y.clone().bundle_hierarchy_edit_grant(&g);
            let inside = t.above(ia, ib);
            match o.c % 4 {
                0 if inside => {
                    let r = x.try_detach_insert_subtree(&g, InsertAs::FirstChildOf(&h));
                    check!(C23 | C04, r.is_err(), "a move below itself is accepted");
                }
                1 if y.is_root() => {
                    let r = x.try_detach_insert_subtree(&g, InsertAs::NextSiblingOf(&h));
                    check!(C23 | C04, r.is_err(), "a move next to a root is accepted");
                    let r = y.try_create_node_as(&g, V::new(3), AdoptAs::PreviousSibling);
                    check!(C23 | C04, r.is_err(), "a creation next to a root is accepted");
                }
                2 if x.is_root() && !x.has_one_child() => {
                    let r = x.try_replace_with_children(&g);
                    check!(C23 | C04, r.is_err(), "an impossible replacement is accepted");
                }
                _ => {
                    let r = x.tree().prohibit_hierarchy_edit();
                    check!(C23 | C04 | C08, r.is_err(), "a prohibition despite a grant");
                    let r = x.clone().bundle_new_hierarchy_edit_prohibition();
                    check!(C23 | C04 | C08, r.is_err(), "a prohibition despite a grant");
                }
            }
        }
        15 => {
            let g = grant(&x);
            let p = x.create_as_interrupting_parent(&g, V::new(7));
            let r = p.try_replace_with_children(&g);
            check!(C23 | C03, r.is_ok(), "a possible replacement is refused: {r:?}");
        }
        16 => {
            let g = grant(&x);
            let p = x.create_as_interrupting_child(&g, V::new(8));
            let r = p.try_replace_with_children(&g);
            check!(C23 | C03, r.is_ok(), "a possible replacement is refused: {r:?}");
        }
        17 => {
            let r = ts[1].n(0);
            let inner = (o.c % 3 == 0).then(|| hot(ts[1].n(o.b % ts[1].len())));
            let g = grant(&r);
            let h = hot(x.clone());
            let kind = if x.is_root() { o.c % 2 } else { o.c % 4 };
            let res = r.try_detach_insert_subtree(&g, at(kind, &h));
            check!(C23 | C03, res.is_ok(), "a possible move is refused: {res:?}");
            drop(g);
            r.detach_subtree(&grant(&r));
            drop(inner);
        }
        18 => {
            let b = y.borrow_data_mut();
            let r = x.try_clone_subtree();
            check!(C23 | C16, r.is_err() == t.above(ia, ib), "a copy with a borrow: {}", r.is_ok());
            drop(r);
            let g = grant(&x);
            let z = hot(ts[1].n(o.c % ts[1].len()));
            if let Ok(n) = x.try_clone_insert_subtree(InsertAs::LastChildOf(&z)) {
                n.detach_subtree();
            }
            drop((b, g));
        }
        _ => {
            let r = Node::new_tree(V::new(1));
            let g = grant(&r);
            let mut n = r.clone();
            for i in 0..o.a % 12 {
                let m = n.create_as_last_child(&g, V::new(i as u32));
                if o.b >> i & 1 == 1 {
                    n = m;
                }
            }
            // The last handle is that of a token, the root, an inner node, or the tree.
            match o.c % 4 {
                0 => drop((r, n, g)),
                1 => drop((g, n, r)),
                2 => drop((r, g, n)),
                _ => {
                    let t = r.tree();
                    drop((g, r, n));
                    drop(t);
                }
            }
        }
    }
    set_scope(old);
}

/// What the traverser that uses the heap holds.
fn buffer(src: &mut Src, t: &T) {
    let wide = if src.chance(1, 8) { 30 + src.draw(250) } else { 0 };
    let root = t.n(0);
    let f = if wide > 0 {
        class("breadth-first traversal of a wide level");
        let c = root.clone_subtree();
        let g = grant(&c);
        let last = c.last_child().unwrap_or_else(|| c.clone());
        for i in 0..wide {
            last.create_as_last_child(&g, V::new(i as u32));
        }
        drop(g);
        frozen(c)
    } else {
        frozen(root)
    };
    let n = f.plain().depth_first_traverse().count() / 2;
    // Choices are recorded on the heap, so they come first.
    let (depth, how, by) = (src.draw(3), src.draw(4), src.draw(4));
    let (fit, least) = (src.chance(1, 2), if src.chance(1, 3) { src.draw(40) } else { 0 });
    let least = if fit { 0 } else { least };
    let before = live().0;
    let mut it = f.allocating_breadth_first_traverse_stable(depth);
    let total = it.clone().count();
    let steps = match how {
        0 => by,
        1 => total / 2,
        _ => total.saturating_sub(by),
    };
    for _ in 0..steps {
        it.next();
    }
    let left = it.clone().count();
    let cap = it.capacity();
    let held = live().0 - before;
    check!(
        C23,
        held <= 64 * cap as isize + 256,
        "{held} bytes are held by a traverser that tells a capacity of {cap}"
    );
    if fit {
        it.shrink_to_fit();
    } else {
        it.shrink_to(least);
    }
    let held = live().0 - before;
    check!(
        C23,
        held <= 64 * (left + least) as isize + 512,
        "{held} bytes are held by the breadth-first traverser of {n} nodes after it was shrunk, {left} nodes are left, at least {least} requested"
    );
    check!(
        C23 | C13,
        it.by_ref().count() == left,
        "the shrunk traverser has not {left} nodes left"
    );
    let held = live().0 - before;
    check!(
        C23,
        held <= 0,
        "{held} bytes are held by a breadth-first traverser that has come to its end"
    );
    drop(it);
}

pub fn run(src: &mut Src) {
    let lim = Lim {
        small: 9,
        big: 20,
        one_in: 12,
        vals: 0,
    };
    let mut keep = Vec::new();
    let before = live();
    let ts = [
        T::new(shape(src, &lim), &mut keep),
        T::new(shape(src, &lim), &mut keep),
    ];
    // Besides the roots, some nodes have handles of their own.
    for t in &ts {
        for i in 1..t.len() {
            if src.chance(1, 3) {
                keep.push(t.n(i));
            }
        }
    }
    let k = 1 + src.draw(4);
    let ops: Vec<Op> = (0..k)
        .map(|_| {
            src.mark();
            Op {
                k: src.draw(OPS),
                a: src.draw(24),
                b: src.draw(24),
                c: src.draw(12),
            }
        })
        .collect();
    log(|| format!("trees below parents {:?} and {:?}, {} handles", ts[0].par, ts[1].par, keep.len()));
    for o in &ops {
        class(NAMES[o.k]);
        log(|| format!("repeated: {} with node {}, other {}, form {}", NAMES[o.k], o.a % ts[0].len(), o.b, o.c));
    }
    refuel(50_000_000);
    let lap = |n: usize| {
        for _ in 0..n {
            for o in &ops {
                cycle(&ts, *o);
            }
        }
        live()
    };
    const LAPS: usize = 24;
    let m0 = lap(3);
    let m1 = lap(LAPS);
    let over = |a: (isize, isize), b: (isize, isize)| b.0 - a.0 >= 8 * LAPS as isize;
    if over(m0, m1) {
        let m2 = lap(LAPS);
        let m3 = lap(LAPS);
        check!(
            C23,
            !(over(m1, m2) && over(m2, m3)),
            "memory grows with each repetition of operations that change nothing in the end: {:?} after 3, {:?} after {} more, {:?}, {:?}",
            (m0.0 - before.0, m0.1 - before.1),
            (m1.0 - before.0, m1.1 - before.1),
            LAPS,
            (m2.0 - before.0, m2.1 - before.1),
            (m3.0 - before.0, m3.1 - before.1)
        );
    }
    // The traverser that promises to do without the heap.
    let f = frozen(ts[0].n(0));
    let depth = src.draw(4);
    let n = calls();
    let mut count = 0;
    let mut it = f.non_allocating_breadth_first_traverse_stable(depth);
    while let Some((node, _)) = it.next() {
        count += usize::from(node.has_children());
    }
    drop(it);
    check!(
        C23 | C13,
        calls() == n,
        "the non-allocating traverser made {} heap allocations ({count} nodes with children)",
        calls() - n
    );
    drop(f);
    buffer(src, &ts[0]);
    nontrivial();
    while !keep.is_empty() {
        let i = src.draw(keep.len());
        keep.swap_remove(i);
    }
    for t in &ts {
        for (i, w) in t.w.iter().enumerate() {
            check!(C23 | C06, w.upgrade().is_none(), "node {i} is alive after the last handle was dropped");
        }
    }
}
