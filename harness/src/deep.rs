//! C07: trees whose depth or width is far beyond what the stack could hold as nested calls.
//! The operations run in threads with a small stack; a stack overflow ends the worker process,
//! which the parent process sees and confirms.

#![allow(deprecated)]

use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::sync::atomic::{AtomicIsize, Ordering};
use std::sync::Arc;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{AdoptAs, FrozenNode, HierarchyError, HotNode, InsertAs, Node, Tree};

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::model::{Model, Pos};

/// Bytes of stack. At 20 000 nodes this is 13 bytes per node: no nested calls fit.
const STACK: usize = 256 * 1024;
/// Where another property is looked at: nested calls are no concern there.
const BIG_STACK: usize = 512 << 20;

thread_local! {
    /// What the running step is about, besides C07.
    static ABOUT: Cell<Tags> = const { Cell::new(0) };
}
/// Failures and panics now count for C07 and `about`.
fn about(about: Tags) -> Tags {
    set_scope(C07 | about);
    ABOUT.with(|a| a.replace(about))
}
fn tg() -> Tags {
    C07 | ABOUT.with(|a| a.get())
}
/// What the steps of `OPS` are about.
const ABOUT_OPS: [Tags; 23] = [
    C01,
    C11,
    C12 | C13,
    C14 | C15,
    C16 | C17,
    C03 | C10,
    C03 | C04,
    C03,
    C02,
    C16,
    C19,
    C17,
    C15,
    C03 | C10,
    C01 | C08 | C11 | C12,
    C11 | C12 | C13,
    C11,
    C14 | C15,
    C11 | C12 | C13,
    C03 | C08 | C09,
    C04,
    C18,
    C21,
];

/// Node data of the different kinds of types there are.
trait Pay: Clone + PartialEq + fmt::Display + fmt::Debug + 'static {
    /// Whether nodes can be told apart by their data.
    const DISTINCT: bool = true;
    /// Whether destructors are counted.
    const COUNTED: bool = false;
    fn new(id: usize, live: &Arc<AtomicIsize>) -> Self;
    /// The id (if told apart).
    fn id(&self) -> u32;
    /// What `id()` of the datum with this id is.
    fn val(id: usize) -> u32 {
        if Self::DISTINCT {
            id as u32
        } else {
            0
        }
    }
    fn flip(&mut self);
}

/// Counts its destructors.
struct Z {
    id: u32,
    live: Arc<AtomicIsize>,
}
impl Pay for Z {
    const COUNTED: bool = true;
    fn new(id: usize, live: &Arc<AtomicIsize>) -> Z {
        live.fetch_add(1, Ordering::Relaxed);
        Z {
            id: id as u32,
            live: live.clone(),
        }
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn flip(&mut self) {
        self.id ^= 1 << 30;
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        Z::new(self.id as usize, &self.live)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        self.live.fetch_sub(1, Ordering::Relaxed);
    }
}
impl PartialEq for Z {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl fmt::Display for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
impl fmt::Debug for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}

/// Has no destructor.
impl Pay for u32 {
    fn new(id: usize, _: &Arc<AtomicIsize>) -> u32 {
        id as u32
    }
    fn id(&self) -> u32 {
        *self
    }
    fn flip(&mut self) {
        *self ^= 1 << 30;
    }
}

/// Larger than one would copy around, and aligned more strictly than pointers.
#[derive(Clone, PartialEq)]
#[repr(align(64))]
struct Large([u32; 48]);
impl Pay for Large {
    fn new(id: usize, _: &Arc<AtomicIsize>) -> Large {
        let mut v = [0; 48];
        v[47] = id as u32;
        Large(v)
    }
    fn id(&self) -> u32 {
        self.0[47]
    }
    fn flip(&mut self) {
        self.0[47] ^= 1 << 30;
    }
}
impl fmt::Display for Large {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0[47])
    }
}
impl fmt::Debug for Large {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0[47])
    }
}

/// Takes no space.
#[derive(Clone, PartialEq)]
struct Empty;
impl Pay for Empty {
    const DISTINCT: bool = false;
    fn new(_: usize, _: &Arc<AtomicIsize>) -> Empty {
        Empty
    }
    fn id(&self) -> u32 {
        0
    }
    fn flip(&mut self) {}
}
impl fmt::Display for Empty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("E")
    }
}
impl fmt::Debug for Empty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("E")
    }
}

/// Owns memory, and is no more than a pointer.
impl Pay for Box<u32> {
    fn new(id: usize, _: &Arc<AtomicIsize>) -> Self {
        Box::new(id as u32)
    }
    fn id(&self) -> u32 {
        **self
    }
    fn flip(&mut self) {
        **self ^= 1 << 30;
    }
}

const PAYS: [&str; 5] = [
    "data with destructor",
    "plain data",
    "data of size 0",
    "large data",
    "boxed data",
];

const SHAPES: [&str; 8] = [
    "chain",
    "star",
    "comb with leaf first",
    "comb with leaf last",
    "chain ending in a star",
    "star of long chains",
    "star at the top of a chain",
    "random deep",
];
const OPS: [&str; 23] = [
    "navigate",
    "plain traversals",
    "stable traversals",
    "serialise and collect",
    "clone and compare",
    "detach and move back",
    "move within the tree",
    "replace with children",
    "interrupt",
    "clone into the tree",
    "pretty print",
    "compare with a near copy",
    "builder below a node",
    "move to another tree",
    "hot and frozen handles",
    "close current",
    "stepping single events",
    "typed collections",
    "clones and hints of traversers",
    "move with many hot handles",
    "refused edits",
    "data borrowed everywhere",
    "traversals kept across edits",
];

struct Deep<P: Pay> {
    m: Model,
    h: Vec<Option<Node<P>>>,
    live: Arc<AtomicIsize>,
    src: Src,
}

pub fn run(src: &mut Src, prop: &str, huge: bool) {
    let own = tag_of(prop);
    let main = own == C07;
    let shape = src.draw(SHAPES.len());
    // Some are larger than what 16 bits count.
    let large = if main { src.chance(1, 10) } else { src.chance(2, 3) };
    let n = match (huge, large) {
        (true, true) => 65_600 + src.draw(15_000),
        (true, false) => 20_000 + src.draw(15_000),
        (false, true) => 2 + src.draw(8),
        (false, false) => 2 + src.draw(38),
    };
    let build = src.draw(5);
    let k = 1 + src.draw(if huge { 3 } else { 8 });
    let near: Vec<usize> = (0..OPS.len()).filter(|o| ABOUT_OPS[*o] & own != 0).collect();
    let ops: Vec<usize> = (0..k)
        .map(|i| {
            if i == 0 && !near.is_empty() {
                near[src.draw(near.len())]
            } else {
                src.draw(OPS.len())
            }
        })
        .collect();
    let end = src.draw(6);
    let pay = src.draw(PAYS.len());
    let inner: Vec<u32> = (0..120).map(|_| src.draw(1 << 24) as u32).collect();
    class(SHAPES[shape]);
    for o in &ops {
        class(OPS[*o]);
    }
    class(PAYS[pay]);
    finger(pay as u64 * 100_000 + n as u64);
    finger((shape * 100 + build * 10 + end) as u64);
    for o in &ops {
        finger(*o as u64);
    }
    nontrivial();
    log(|| {
        format!(
            "{} of {n} nodes ({}), built in way {build}, then {}, dropped in way {end}",
            SHAPES[shape],
            PAYS[pay],
            ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ")
        )
    });
    let f = match pay {
        0 => case::<Z>,
        1 => case::<u32>,
        2 => case::<Empty>,
        3 => case::<Large>,
        _ => case::<Box<u32>>,
    };
    if !huge {
        f(shape, n, build, &ops, end, inner);
        set_scope(0);
        return;
    }
    let on = log_enabled();
    set_scope(C07);
    let r = std::thread::Builder::new()
        .stack_size(if main { STACK } else { BIG_STACK })
        .spawn(move || run_case(on, || f(shape, n, build, &ops, end, inner)).outcome)
        .expect("thread")
        .join();
    match r {
        Ok(Outcome::Pass) => {}
        Ok(Outcome::Fail { tags, msg }) => fail(tags, msg),
        Err(_) => fail(C07, "the thread ended by a panic".into()),
    }
    set_scope(0);
}

fn shape_of(kind: usize, n: usize, src: &mut Src) -> Vec<usize> {
    // Parent of node i (i > 0); ids are in preorder.
    let mut p = vec![0usize; n];
    match kind {
        0 => (1..n).for_each(|i| p[i] = i - 1),
        1 => {}
        2 => (1..n).for_each(|i| p[i] = if i % 2 == 1 { i - 1 } else { i - 2 }),
        3 => {
            // A spine of n/2 nodes, each with a leaf after the next spine node.
            let s = n / 2;
            for i in 1..s {
                p[i] = i - 1;
            }
            for i in s..n {
                // Leaves, deepest parent first.
                let k = i - s;
                p[i] = (s - 1).saturating_sub(k);
            }
        }
        4 => (1..n).for_each(|i| p[i] = (i - 1).min(n / 2)),
        5 => {
            let len = 200.min(n / 3 + 1);
            for i in 1..n {
                p[i] = if (i - 1) % len == 0 { 0 } else { i - 1 };
            }
        }
        6 => {
            let s = n / 2;
            for i in 1..n {
                p[i] = if i < s { 0 } else { i - 1 };
            }
            p[s] = 0;
        }
        _ => {
            for i in 1..n {
                let back = match src.draw(20) {
                    0 => 1 + src.draw(30),
                    1..=4 => 1,
                    _ => 0,
                };
                // An ancestor of the previous node.
                let mut x = i - 1;
                for _ in 0..back {
                    if x == 0 {
                        break;
                    }
                    x = p[x];
                }
                p[i] = x;
            }
        }
    }
    p
}

fn case<P: Pay>(shape: usize, n: usize, build: usize, ops: &[usize], end: usize, inner: Vec<u32>) {
    about(if build == 4 { C15 } else { C02 });
    refuel(u64::MAX);
    let mut src = Src::replay(inner);
    let par = shape_of(shape, n, &mut src);
    let live = Arc::new(AtomicIsize::new(0));
    let mut m = Model::default();
    m.new_tree(0, P::val(0));
    for i in 1..n {
        m.create(Pos::Last(par[i]), i as u32, P::val(i));
    }
    let h = build_tree::<P>(&m, n, build, &live);
    let mut d = Deep::<P> { m, h, live, src };
    d.full("after building");
    for o in ops {
        about(ABOUT_OPS[*o]);
        d.op(*o);
        d.full(OPS[*o]);
    }
    about(C05 | C06);
    d.end(end);
}

fn build_tree<P: Pay>(m: &Model, n: usize, way: usize, live: &Arc<AtomicIsize>) -> Vec<Option<Node<P>>> {
    let z = |i: usize| P::new(i, live);
    let mut h: Vec<Option<HotNode<P>>> = vec![None; n];
    match way {
        0 | 3 => {
            h[0] = Some(HotNode::new_tree(z(0)));
            for i in 1..n {
                let p = h[m.nodes[i].parent.unwrap()].as_ref().unwrap();
                h[i] = Some(p.create_as_last_child(z(i)));
            }
        }
        1 => {
            h[0] = Some(HotNode::new_tree(z(0)));
            let mut st = vec![0];
            while let Some(x) = st.pop() {
                let p = h[x].clone().unwrap();
                for c in m.nodes[x].children.iter().rev() {
                    h[*c] = Some(p.create_as_first_child(z(*c)));
                    st.push(*c);
                }
            }
        }
        2 => {
            // Siblings after one another; first children below.
            h[0] = Some(HotNode::new_tree(z(0)));
            for x in 0..n {
                let mut prev: Option<HotNode<P>> = None;
                for c in &m.nodes[x].children {
                    let y = match &prev {
                        None => h[x].as_ref().unwrap().create_as_first_child(z(*c)),
                        Some(s) => s.create_as_next_sibling(z(*c)),
                    };
                    h[*c] = Some(y.clone());
                    prev = Some(y);
                }
            }
        }
        _ => {
            // Events in preorder through the builder.
            let mut b = TreeBuilder::new();
            let mut st: Vec<(bool, usize)> = vec![(true, 0)];
            while let Some((open, x)) = st.pop() {
                let r = if open {
                    st.push((false, x));
                    st.extend(m.nodes[x].children.iter().rev().map(|c| (true, *c)));
                    b.push_event(Event::Open(z(x)))
                } else {
                    b.push_event(Event::Close(1))
                };
                check!(tg(), r.is_ok(), "the builder refused a well-formed stream at n{x}");
            }
            let root = match b.finish() {
                Ok(r) => r,
                Err(_) => fail(tg(), "the builder did not finish".into()),
            };
            let mut v: Vec<Option<Node<P>>> = vec![None; n];
            // The ids are in preorder.
            let mut i = 0;
            for e in root.depth_first_traverse().take(2 * n) {
                if let DftEvent::Open(x) = e {
                    check!(tg(), i < n, "there are more nodes than events");
                    v[i] = Some(x);
                    i += 1;
                }
            }
            check!(tg(), v.iter().all(|x| x.is_some()), "built nodes are missing");
            return v;
        }
    }
    h.iter().map(|x| x.as_ref().map(HotNode::plain)).collect()
}

/// Counts what is written.
#[derive(Default)]
struct Count {
    lines: usize,
    bytes: usize,
    last: Vec<u8>,
}
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.bytes += s.len();
        for b in s.bytes() {
            if b == b'\n' {
                self.lines += 1;
                self.last.clear();
            } else {
                self.last.push(b);
            }
        }
        Ok(())
    }
}

impl<P: Pay> Deep<P> {
    fn x(&self, n: usize) -> &Node<P> {
        self.h[n].as_ref().unwrap()
    }
    fn hot(&self, n: usize) -> HotNode<P> {
        match self.x(n).clone().bundle_new_hierarchy_edit_grant() {
            Ok(h) => h,
            Err(_) => fail(tg(), format!("hot handle of n{n} refused")),
        }
    }
    fn fz(&self, n: usize) -> FrozenNode<P> {
        match self.x(n).clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(h) => h,
            Err(_) => fail(tg(), format!("frozen handle of n{n} refused")),
        }
    }
    /// A node, often one near the ends of the tree.
    fn some(&mut self) -> usize {
        let all = self.alive();
        let k = all.len();
        match self.src.draw(6) {
            0 => all[0],
            1 => all[k - 1],
            2 => all[k / 2],
            3 => all[1.min(k - 1)],
            _ => {
                let i = self.src.draw(1 << 24);
                all[i % k]
            }
        }
    }
    fn alive(&self) -> Vec<usize> {
        self.m.subtree(self.m.trees[0].root)
    }
    /// All links of all trees.
    fn full(&self, when: &str) {
        let old = about(C01 | C02 | C03);
        self.links(when);
        about(old);
    }
    fn links(&self, when: &str) {
        let m = &self.m;
        let is = |g: Option<Node<P>>, w: Option<usize>| match (&g, w) {
            (None, None) => true,
            (Some(g), Some(w)) => g.ptr_eq(self.x(w)),
            _ => false,
        };
        for t in 0..m.trees.len() {
            if !m.trees[t].alive {
                continue;
            }
            let r = m.trees[t].root;
            let mut st = vec![r];
            let tree = self.x(r).tree();
            check!(tg(), is(self.x(r).parent(), None), "{when}: the root n{r} has a parent");
            while let Some(n) = st.pop() {
                let x = self.x(n);
                let ch = &m.nodes[n].children;
                check!(
                    tg(),
                    is(x.first_child(), ch.first().copied()),
                    "{when}: wrong first child of n{n}"
                );
                check!(
                    tg(),
                    is(x.last_child(), ch.last().copied()),
                    "{when}: wrong last child of n{n}"
                );
                for (i, c) in ch.iter().enumerate() {
                    let y = self.x(*c);
                    let prev = if i > 0 { Some(ch[i - 1]) } else { None };
                    check!(
                        tg(),
                        is(y.parent(), Some(n))
                            && is(y.next_sibling(), ch.get(i + 1).copied())
                            && is(y.prev_sibling(), prev),
                        "{when}: wrong neighbours of n{c}"
                    );
                    st.push(*c);
                }
                check!(
                    tg(),
                    x.num_children() == ch.len(),
                    "{when}: {} children of n{n} counted, expected {}",
                    x.num_children(),
                    ch.len()
                );
                let d = x.borrow_data().id();
                check!(tg(), d == m.nodes[n].val, "{when}: n{n} holds {d}");
                check!(
                    C07 | C10,
                    x.belongs_to_same_tree(self.x(r)) && x.belongs_to(&tree),
                    "{when}: n{n} does not belong to its tree"
                );
            }
        }
        about(C05);
        let want: usize = m.nodes.iter().filter(|n| n.alive).count();
        let got = self.live.load(Ordering::Relaxed);
        check!(tg(), !P::COUNTED || got == want as isize, "{when}: {got} data are alive, expected {want}");
    }
    fn events(&self, top: usize) -> Vec<(bool, u32)> {
        let mut v = Vec::new();
        let mut st = vec![(true, top)];
        while let Some((open, x)) = st.pop() {
            v.push((open, self.m.nodes[x].val));
            if open {
                st.push((false, x));
                st.extend(self.m.nodes[x].children.iter().rev().map(|c| (true, *c)));
            }
        }
        v
    }
    /// The copy has the events of the subtree.
    fn same(&self, what: &str, copy: &Node<P>, top: usize) {
        let want = self.events(top);
        let mut k = 0;
        for e in copy.depth_first_traverse() {
            let g = match &e {
                DftEvent::Open(x) => (true, x.borrow_data().id()),
                DftEvent::Close(x) => (false, x.borrow_data().id()),
            };
            check!(
                tg(),
                want.get(k) == Some(&g),
                "{what}: event {k} is {g:?}, expected {:?}",
                want.get(k)
            );
            k += 1;
        }
        check!(tg(), k == want.len(), "{what}: {k} events, expected {}", want.len());
    }
    fn op(&mut self, o: usize) {
        let n = self.some();
        match o {
            0 => self.navigate(n),
            1 => self.plain(n),
            2 => self.stable(n),
            3 => {
                let evs: Result<Vec<Event<P>>, _> = self.x(n).to_events().collect();
                let evs = match evs {
                    Ok(e) => e,
                    Err(_) => fail(tg(), "borrow error while serialising".into()),
                };
                let r: Result<Tree<P>, _> = evs.into_iter().collect();
                match r {
                    Ok(t) => self.same("serialised and collected", &t.root(), n),
                    Err(_) => fail(tg(), "the serialised events were refused".into()),
                }
                let r: Result<Node<P>, _> = self.x(n).depth_first_traverse().collect();
                match r {
                    Ok(t) => self.same("collected from traversal events", &t, n),
                    Err(_) => fail(tg(), "the traversal events were refused".into()),
                }
            }
            4 => {
                let c = self.x(n).clone_subtree();
                self.same("clone", &c, n);
                check!(tg(), c == *self.x(n), "the clone differs from the original");
                check!(tg(), *self.x(n) == c, "the original differs from the clone");
                let t = self.x(n).tree().clone_tree();
                check!(tg(), t == self.x(n).tree(), "the cloned tree differs");
                // Drop a clone through some handle of it only.
                let k = self.m.subtree(n).len();
                let at = self.src.draw(1 << 24) % k;
                let mut keep = None;
                let mut i = 0;
                for e in c.depth_first_traverse() {
                    if let DftEvent::Open(x) = e {
                        if i == at {
                            keep = Some(x);
                            break;
                        }
                        i += 1;
                    }
                }
                drop(c);
                check!(tg(), keep.is_some(), "node {at} of the clone is missing");
                drop(keep);
            }
            5 => {
                if self.m.is_root(n) {
                    return;
                }
                let p = self.m.nodes[n].parent.unwrap();
                let i = self.m.index(n);
                let back = if i == 0 {
                    Pos::First(p)
                } else {
                    Pos::Next(self.m.nodes[p].children[i - 1])
                };
                let h = self.hot(n);
                h.detach_subtree();
                self.m.detach(n);
                self.full("detached");
                drop(h);
                self.mv(n, back);
            }
            6 => {
                // To a place outside the subtree.
                let d = self.some();
                if self.m.is_root(n) || self.m.in_subtree(d, n) {
                    // Must be refused, and that is found out without nested calls, too.
                    let x = self.hot(n);
                    let y = self.hot(d);
                    let r = x.try_detach_insert_subtree(InsertAs::FirstChildOf(&y));
                    check!(tg(), r.is_err(), "moving n{n} under n{d} of its own subtree succeeded");
                    return;
                }
                self.mv(n, Pos::Last(d));
            }
            7 => {
                let bad = self.m.is_root(n) && self.m.nodes[n].children.len() != 1;
                let h = self.hot(n);
                let r = h.try_replace_with_children();
                check!(tg(), r.is_ok() != bad, "replace_with_children of n{n}: {r:?}");
                if !bad {
                    self.m.replace_with_children(n);
                    // The handle keeps the removed node alive as a tree of its own.
                    self.full("replaced");
                    drop(h);
                    let was = self.h[n].take();
                    drop(was);
                    let t = self.m.nodes[n].tree;
                    self.m.trees[t].alive = false;
                    self.m.nodes[n].alive = false;
                    if self.m.trees[0].root == n {
                        fail(tg(), "the harness lost the root".into());
                    }
                }
            }
            8 => {
                let id = self.m.nodes.len();
                let h = self.hot(n);
                let z = P::new(id, &self.live);
                let new = if self.src.chance(1, 2) {
                    self.m.interrupt_parent(n, id as u32, P::val(id));
                    h.create_as_interrupting_parent(z)
                } else {
                    self.m.interrupt_child(n, id as u32, P::val(id));
                    h.create_as_interrupting_child(z)
                };
                self.h.push(Some(new.plain()));
            }
            9 => {
                // The destination is anywhere, also inside the source.
                let d = self.some();
                let before = self.m.clone();
                let (x, y) = (self.x(n).clone(), self.hot(d));
                let c = x.clone_insert_subtree(InsertAs::LastChildOf(&y));
                let g = Deep::<P> {
                    m: before,
                    h: Vec::new(),
                    live: self.live.clone(),
                    src: Src::replay(vec![]),
                };
                g.same("inserted clone", &c.plain(), n);
                check!(
                    tg(),
                    self.x(d).last_child().is_some_and(|l| l.ptr_eq(&c.plain())),
                    "the clone is not the last child of n{d}"
                );
                // Out again, so that the model stays as it is.
                c.detach_subtree();
            }
            10 => self.pretty(),
            11 => {
                let c = self.x(n).clone_subtree();
                // Change the last or a random node of the copy.
                let k = self.m.subtree(n).len();
                let at = if self.src.chance(1, 2) { k - 1 } else { self.src.draw(1 << 24) % k };
                let nodes = c.depth_first_traverse().filter_map(|e| match e {
                    DftEvent::Open(x) => Some(x),
                    _ => None,
                });
                let y = nodes.into_iter().nth(at);
                let Some(y) = y else {
                    fail(tg(), format!("node {at} of the clone is missing"))
                };
                if self.src.chance(1, 2) && P::DISTINCT {
                    y.borrow_data_mut().flip();
                } else {
                    let g = match y.tree().grant_hierarchy_edit() {
                        Ok(g) => g,
                        Err(_) => fail(tg(), "grant for the clone refused".into()),
                    };
                    y.create_as_last_child(&g, P::new(7, &self.live));
                }
                check!(tg(), c != *self.x(n), "a changed clone equals the original");
                check!(tg(), *self.x(n) != c, "the original equals a changed clone");
            }
            12 => {
                // Nodes added below n, in a long chain.
                let mut b = TreeBuilder::with_root(self.hot(n));
                let k = if self.h.len() > 1000 { 3000 } else { 1 + self.src.draw(20) };
                let mut p = n;
                for _ in 0..k {
                    let id = self.m.nodes.len();
                    let r = b.open(P::new(id, &self.live));
                    check!(tg(), r.is_ok(), "the builder refused to open a node");
                    p = self.m.create(Pos::Last(p), id as u32, P::val(id));
                    self.h.push(None);
                }
                check!(tg(), b.close(k + 1).is_ok(), "the builder refused to close all nodes");
                check!(tg(), b.is_root_closed(), "the root is not closed");
                let r = b.finish();
                check!(tg(), r.is_ok_and(|r| r.ptr_eq(self.x(n))), "finish gave another node");
                let mut x = self.x(n).last_child();
                let mut i = self.h.len() - k;
                while let Some(y) = x {
                    check!(tg(), i < self.h.len(), "more nodes than were opened");
                    x = y.last_child();
                    self.h[i] = Some(y);
                    i += 1;
                }
                check!(tg(), i == self.h.len(), "fewer nodes than were opened");
            }
            14 => self.handles(),
            15 => self.close_current(n),
            16 => self.step_events(n),
            17 => self.typed(n),
            18 => self.traversers(n),
            19 => self.move_locked(n),
            20 => {
                for _ in 0..1 + self.src.draw(3) {
                    let n = self.some();
                    self.refused(n);
                }
            }
            21 => self.data(n),
            22 => self.kept(n),
            _ => {
                // Another tree takes the subtree over, and gives it back.
                if self.m.is_root(n) {
                    return;
                }
                let p = self.m.nodes[n].parent.unwrap();
                let i = self.m.index(n);
                let back = if i == 0 {
                    Pos::First(p)
                } else {
                    Pos::Next(self.m.nodes[p].children[i - 1])
                };
                let id = self.m.nodes.len();
                let o = self.m.new_tree(id as u32, P::val(id));
                self.h.push(Some(Node::new_tree(P::new(id, &self.live))));
                self.mv(n, Pos::First(o));
                self.full("moved to another tree");
                self.mv(n, back);
                self.full("moved back");
                self.h[o] = None;
                self.m.nodes[o].alive = false;
                let t = self.m.nodes[o].tree;
                self.m.trees[t].alive = false;
            }
        }
    }
    /// A subtree with hot handles of many of its nodes goes to another tree and back.
    fn move_locked(&mut self, n: usize) {
        if self.m.is_root(n) {
            return;
        }
        let p = self.m.nodes[n].parent.unwrap();
        let i = self.m.index(n);
        let back = if i == 0 {
            Pos::First(p)
        } else {
            Pos::Next(self.m.nodes[p].children[i - 1])
        };
        let step = 1 + self.src.draw(3);
        let twice = self.src.chance(1, 2);
        let mut hot: Vec<HotNode<P>> = Vec::new();
        let sub = self.m.subtree(n);
        for x in sub.iter().rev().step_by(step) {
            hot.push(self.hot(*x));
            if twice {
                hot.push(hot.last().unwrap().clone());
            }
        }
        // And some that stay.
        let stay = if self.src.chance(1, 2) { Some(self.hot(p)) } else { None };
        let free = |x: &Node<P>| x.tree().prohibit_hierarchy_edit().is_ok();
        let mut o = None;
        if self.src.chance(1, 2) {
            let h = self.hot(n);
            h.detach_subtree();
            self.m.detach(n);
        } else {
            let id = self.m.nodes.len();
            let x = self.m.new_tree(id as u32, P::val(id));
            self.h.push(Some(Node::new_tree(P::new(id, &self.live))));
            self.mv(n, Pos::Last(x));
            o = Some(x);
        }
        check!(tg(), !free(self.x(n)), "the tree n{n} went to is not locked by its {} hot handles", hot.len());
        check!(
            tg(),
            free(self.x(p)) == stay.is_none(),
            "the tree n{n} left: wrong locks (hot handle of n{p}: {})",
            stay.is_some()
        );
        self.full("moved with hot handles");
        let way = self.src.draw(3);
        if way == 0 {
            // All but one.
            hot.truncate(1);
            check!(tg(), !free(self.x(n)), "one hot handle does not lock the tree of n{n}");
        }
        if way < 2 {
            hot.clear();
            check!(tg(), free(self.x(n)), "the tree n{n} went to stays locked without handles");
        }
        self.mv(n, back);
        check!(
            tg(),
            free(self.x(n)) == (hot.is_empty() && stay.is_none()),
            "the tree n{n} came back to: wrong locks ({} hot handles below n{n}, hot handle of n{p}: {})",
            hot.len(),
            stay.is_some()
        );
        if let Some(o) = o {
            check!(tg(), free(self.x(o)), "the tree n{n} was taken from stays locked");
            self.h[o] = None;
            self.m.nodes[o].alive = false;
            let t = self.m.nodes[o].tree;
            self.m.trees[t].alive = false;
        }
        drop(stay);
        hot.clear();
        check!(tg(), free(self.x(p)), "the tree of n{n} stays locked without handles");
    }
    /// Edits that cannot be done. The whole tree is compared after that.
    fn refused(&mut self, n: usize) {
        let root = self.m.trees[0].root;
        let sub = self.m.subtree(n);
        let k = sub.len();
        // The last one in document order is the deepest one of a chain.
        let d = match self.src.draw(3) {
            0 => n,
            1 => sub[k - 1],
            _ => sub[self.src.draw(1 << 24) % k],
        };
        let kind = self.src.draw(4);
        let kids = self.m.nodes[root].children.len();
        fn place<T>(kind: usize, h: &HotNode<T>) -> InsertAs<&HotNode<T>> {
            match kind {
                0 => InsertAs::FirstChildOf(h),
                1 => InsertAs::LastChildOf(h),
                2 => InsertAs::PreviousSiblingOf(h),
                _ => InsertAs::NextSiblingOf(h),
            }
        }
        let is_borrow = |e: &HierarchyError| matches!(e, HierarchyError::BorrowNodeData(_));
        match self.src.draw(6) {
            0 => {
                let kind = if d == n { kind % 2 } else { kind };
                let (x, y) = (self.hot(n), self.hot(d));
                let r = x.try_detach_insert_subtree(place(kind, &y));
                check!(
                    tg(),
                    matches!(r, Err(HierarchyError::AncestorDescendantLoop)),
                    "n{n} moved to place {kind} at n{d} below itself: {r:?}"
                );
            }
            1 => {
                let h = self.hot(root);
                let z = P::new(self.m.nodes.len(), &self.live);
                let r = h.try_create_node_as(
                    z,
                    if kind % 2 == 0 { AdoptAs::PreviousSibling } else { AdoptAs::NextSibling },
                );
                check!(
                    tg(),
                    matches!(r, Err(HierarchyError::SiblingsWithoutParent)),
                    "a sibling of the root was created: {:?}",
                    r.is_ok()
                );
            }
            2 => {
                if kids == 1 {
                    return;
                }
                let h = self.hot(root);
                let r = h.try_replace_with_children();
                let ok = match r {
                    Err(HierarchyError::EmptyTree) => kids == 0,
                    Err(HierarchyError::SiblingsWithoutParent) => kids > 1,
                    _ => false,
                };
                check!(tg(), ok, "the root was replaced with its {kids} children: {r:?}");
            }
            3 | 4 => {
                // Some datum somewhere in the subtree is borrowed.
                let before = self.x(n).clone_subtree();
                let h = self.x(d).clone();
                let pos = sub.iter().position(|x| *x == d).unwrap();
                let guard = match h.try_borrow_data_mut() {
                    Ok(g) => g,
                    Err(_) => fail(tg(), format!("data of n{d} cannot be borrowed")),
                };
                let x = self.x(n);
                check!(tg() | C16, x.try_clone_subtree().is_err(), "n{n} was cloned with n{d} borrowed");
                check!(
                    tg() | C16,
                    self.x(root).tree().try_clone_tree().is_err(),
                    "the tree was cloned with n{d} borrowed"
                );
                let o = self.some();
                let kind = if self.m.is_root(o) { kind % 2 } else { kind };
                let y = self.hot(o);
                let x = self.x(n);
                let c = self.hot(n).try_clone_insert_subtree(place(kind, &y));
                check!(
                    tg() | C16,
                    c.as_ref().is_err_and(is_borrow),
                    "n{n} was cloned to place {kind} at n{o} with n{d} borrowed: {:?}",
                    c.is_ok()
                );
                check!(
                    tg() | C17,
                    x.try_eq(&before).is_err() && before.try_eq(x).is_err(),
                    "n{n} was compared with its copy with n{d} borrowed"
                );
                let opens = x
                    .to_events()
                    .take_while(|e| e.is_ok())
                    .filter(|e| matches!(e, Ok(Event::Open(_))))
                    .count();
                check!(
                    tg() | C14,
                    opens == pos,
                    "{opens} nodes of n{n} serialised before the borrowed one, expected {pos}"
                );
                drop(guard);
                check!(
                    tg() | C17,
                    x.try_eq(&before).is_ok_and(|b| b),
                    "n{n} differs from its copy after refused operations"
                );
            }
            _ => {
                // Locked either way.
                let t = self.x(root).tree();
                let h = self.hot(d);
                check!(
                    tg() | C08,
                    t.prohibit_hierarchy_edit().is_err()
                        && self.x(n).clone().bundle_new_hierarchy_edit_prohibition().is_err(),
                    "n{n} can be frozen while n{d} is hot"
                );
                drop(h);
                let f = self.fz(d);
                check!(
                    tg() | C08,
                    t.grant_hierarchy_edit().is_err()
                        && self.x(n).clone().bundle_new_hierarchy_edit_grant().is_err(),
                    "n{n} can be edited while n{d} is frozen"
                );
                drop(f);
            }
        }
    }
    /// Data of all nodes borrowed at once, and of one many times.
    fn data(&mut self, n: usize) {
        let sub = self.m.subtree(n);
        let k = sub.len();
        let hs: Vec<Node<P>> = sub.iter().map(|x| self.x(*x).clone()).collect();
        let one = self.src.draw(1 << 24) % k;
        let id = self.m.nodes[sub[one]].val;
        match self.src.draw(3) {
            0 => {
                // Shared, everywhere. The tree may be read and edited.
                let refs: Vec<_> = hs.iter().map(|h| h.try_borrow_data()).collect();
                check!(tg(), refs.iter().all(|r| r.is_ok()), "shared borrows below n{n} refused");
                check!(
                    tg(),
                    hs.iter().all(|h| h.try_borrow_data_mut().is_err()),
                    "exclusive borrows below n{n} while there are shared ones"
                );
                self.full("borrowed");
                if !self.m.is_root(n) {
                    self.op(5);
                }
                check!(
                    tg(),
                    refs.iter().zip(&sub).all(|(r, x)| r.as_ref().unwrap().id() == self.m.nodes[*x].val),
                    "data below n{n} have changed"
                );
                drop(refs);
                check!(
                    tg(),
                    hs.iter().all(|h| h.try_borrow_data_mut().is_ok()),
                    "exclusive borrows below n{n} refused"
                );
            }
            1 => {
                // Exclusive, everywhere. The tree may still be walked and edited.
                let mut refs = Vec::with_capacity(k);
                for h in &hs {
                    match h.try_borrow_data_mut() {
                        Ok(r) => refs.push(r),
                        Err(_) => fail(tg(), format!("exclusive borrows below n{n} refused")),
                    }
                }
                let f = self.hot(sub[one]);
                check!(
                    tg(),
                    f.try_borrow_data().is_err() && f.try_borrow_data_mut().is_err(),
                    "n{} can be borrowed twice",
                    sub[one]
                );
                drop(f);
                let x = self.x(n);
                check!(
                    tg(),
                    x.depth_first_traverse().count() == 2 * k && x.num_children() == self.m.nodes[n].children.len(),
                    "wrong traversal of n{n} with borrowed data"
                );
                self.navigate(n);
                if !self.m.is_root(n) {
                    let p = self.m.nodes[n].parent.unwrap();
                    let i = self.m.index(n);
                    let back = if i == 0 {
                        Pos::First(p)
                    } else {
                        Pos::Next(self.m.nodes[p].children[i - 1])
                    };
                    self.hot(n).detach_subtree();
                    self.m.detach(n);
                    self.mv(n, back);
                }
                refs[one].flip();
                drop(refs);
                let got = self.hot(sub[one]).borrow_data().id();
                check!(
                    tg(),
                    !P::DISTINCT || got != id,
                    "a write to n{} is not seen",
                    sub[one]
                );
                self.fz(sub[one]).borrow_data_mut().flip();
            }
            _ => {
                // One datum, more often than 16 bits count.
                let h = &hs[one];
                let many = 65_540;
                let mut refs = Vec::with_capacity(many);
                for i in 0..many {
                    match h.try_borrow_data() {
                        Ok(r) => refs.push(r),
                        Err(_) => fail(tg(), format!("shared borrow number {i} of n{} refused", sub[one])),
                    }
                }
                check!(
                    tg(),
                    h.try_borrow_data_mut().is_err(),
                    "n{} can be borrowed exclusively while there are {many} shared borrows",
                    sub[one]
                );
                refs.truncate(1);
                check!(
                    tg(),
                    h.try_borrow_data_mut().is_err() && refs[0].id() == id,
                    "n{} can be borrowed exclusively while there is a shared borrow",
                    sub[one]
                );
                drop(refs);
                check!(
                    tg(),
                    h.try_borrow_data_mut().is_ok(),
                    "n{} cannot be borrowed exclusively after {many} shared borrows",
                    sub[one]
                );
            }
        }
    }
    /// Traversals that are under way while their next node goes elsewhere.
    fn kept(&mut self, n: usize) {
        // Events of a whole tree.
        fn all(m: &Model, top: usize) -> Vec<(bool, usize)> {
            let mut v = Vec::new();
            let mut st = vec![(true, top)];
            while let Some((open, x)) = st.pop() {
                v.push((open, x));
                if open {
                    st.push((false, x));
                    st.extend(m.nodes[x].children.iter().rev().map(|c| (true, *c)));
                }
            }
            v
        }
        let back = self.src.chance(1, 3);
        let evs = {
            let mut v = all(&self.m, n);
            if back {
                v.reverse();
            }
            v
        };
        let at = match self.src.draw(3) {
            0 => 0,
            1 => self.src.draw(1 << 24) % evs.len(),
            _ => evs.len() / 2,
        };
        let what = if back { "reverse " } else { "" };
        let mut fwd = self.x(n).depth_first_traverse();
        let mut rev = self.x(n).depth_first_reverse_traverse();
        let mut step = |s: &Self| {
            let e = if back { rev.next() } else { fwd.next() };
            let hint = if back { rev.size_hint() } else { fwd.size_hint() };
            let _ = s;
            (
                e.map(|e| match e {
                    DftEvent::Open(x) => (true, x),
                    DftEvent::Close(x) => (false, x),
                }),
                hint,
            )
        };
        let same = |s: &Self, g: &Option<(bool, Node<P>)>, w: Option<(bool, usize)>| match (g, w) {
            (None, None) => true,
            (Some((a, x)), Some((b, y))) => *a == b && x.ptr_eq(s.x(y)),
            _ => false,
        };
        for (i, e) in evs[..at].iter().enumerate() {
            let (g, _) = step(self);
            check!(tg() | C11, same(self, &g, Some(*e)), "{what}depth-first from n{n}: event {i} is wrong");
        }
        // Edits: the next node goes, or one of those above it.
        let next = evs[at];
        let mut y = next.1;
        for _ in 0..self.src.draw(3) {
            y = self.m.nodes[y].parent.unwrap_or(y);
        }
        let home = if self.m.is_root(y) {
            None
        } else {
            let p = self.m.nodes[y].parent.unwrap();
            let i = self.m.index(y);
            Some(if i == 0 {
                Pos::First(p)
            } else {
                Pos::Next(self.m.nodes[p].children[i - 1])
            })
        };
        let mut o = None;
        if home.is_some() {
            if self.src.chance(1, 2) {
                self.hot(y).detach_subtree();
                self.m.detach(y);
            } else {
                let id = self.m.nodes.len();
                let x = self.m.new_tree(id as u32, P::val(id));
                self.h.push(Some(Node::new_tree(P::new(id, &self.live))));
                self.mv(y, Pos::Last(x));
                o = Some(x);
            }
        }
        let rest = {
            let mut v = all(&self.m, self.m.root_of(next.1));
            if back {
                v.reverse();
            }
            let i = v.iter().position(|e| *e == next).unwrap();
            v.drain(..i);
            // It ends where it was to end, if it gets there.
            if let Some(i) = v.iter().position(|e| *e == (back, n)) {
                v.truncate(i + 1);
            }
            v
        };
        for (i, e) in rest.iter().enumerate() {
            let (g, (lo, hi)) = step(self);
            check!(
                tg(),
                same(self, &g, Some(*e)),
                "{what}depth-first from n{n}, with n{y} taken out at event {at}: event {i} after that is wrong, expected {e:?}"
            );
            let left = rest.len() - i - 1;
            check!(
                tg(),
                lo <= left && hi.map_or(true, |h| h >= left),
                "{what}depth-first from n{n}, with n{y} taken out at event {at}: size hint ({lo}, {hi:?}) with {left} events left"
            );
        }
        let (g, _) = step(self);
        check!(
            tg(),
            g.is_none(),
            "{what}depth-first from n{n}, with n{y} taken out at event {at}: more than {} events after that",
            rest.len()
        );
        if let Some(home) = home {
            self.mv(y, home);
        }
        if let Some(o) = o {
            self.h[o] = None;
            self.m.nodes[o].alive = false;
            let t = self.m.nodes[o].tree;
            self.m.trees[t].alive = false;
        }
    }
    fn mv(&mut self, n: usize, pos: Pos) {
        if matches!(pos, Pos::Next(a) | Pos::Prev(a) if a == n) {
            return;
        }
        let x = self.hot(n);
        let y = self.hot(pos.anchor());
        let d = match pos {
            Pos::First(_) => InsertAs::FirstChildOf(&y),
            Pos::Last(_) => InsertAs::LastChildOf(&y),
            Pos::Prev(_) => InsertAs::PreviousSiblingOf(&y),
            Pos::Next(_) => InsertAs::NextSiblingOf(&y),
        };
        let r = x.try_detach_insert_subtree(d);
        check!(tg(), r.is_ok(), "moving n{n} to {pos:?} was refused: {r:?}");
        self.m.mv(n, pos);
    }
    fn navigate(&mut self, _n: usize) {
        let root = self.m.trees[0].root;
        for _ in 0..4 {
            let n = self.some();
            let x = self.x(n);
            check!(tg(), x.root().ptr_eq(self.x(root)), "wrong root of n{n}");
            check!(tg(), x.tree().root().ptr_eq(self.x(root)), "wrong root of the tree of n{n}");
            let d = self.m.depth(n);
            check!(tg(), x.count_ancestors() == d, "wrong number of ancestors of n{n}");
            check!(tg(), x.ancestors().count() == d, "wrong ancestors of n{n}");
            check!(tg(), x.ancestors_or_self().count() == d + 1, "wrong ancestors or self of n{n}");
            let (sib, i) = match self.m.nodes[n].parent {
                Some(p) => (self.m.nodes[p].children.clone(), self.m.index(n)),
                None => (vec![n], 0),
            };
            let (a, b) = x.first_last_sibling();
            check!(
                tg(),
                a.ptr_eq(self.x(sib[0])) && b.ptr_eq(self.x(*sib.last().unwrap())),
                "wrong ends of the siblings of n{n}"
            );
            check!(
                tg(),
                x.count_preceding_siblings() == i
                    && x.count_following_siblings() == sib.len() - 1 - i,
                "wrong number of siblings of n{n}"
            );
            check!(
                tg(),
                x.num_children() == self.m.nodes[n].children.len(),
                "wrong number of children of n{n}"
            );
            check!(
                tg(),
                x.siblings().count() == sib.len()
                    && x.siblings_reverse().count() == sib.len()
                    && x.children().count() == self.m.nodes[n].children.len()
                    && x.following_siblings().count() == sib.len() - 1 - i
                    && x.preceding_siblings_reverse().count() == i,
                "wrong sibling traversals at n{n}"
            );
        }
    }
    /// The queries through locked handles.
    fn handles(&mut self) {
        let root = self.m.trees[0].root;
        for _ in 0..3 {
            let n = self.some();
            let d = self.m.depth(n);
            let (sib, i) = match self.m.nodes[n].parent {
                Some(p) => (self.m.nodes[p].children.clone(), self.m.index(n)),
                None => (vec![n], 0),
            };
            let kids = self.m.nodes[n].children.clone();
            let me = self.x(n).clone();
            macro_rules! all {
                ($x:expr, $what:expr) => {{
                    let x = $x;
                    let w = $what;
                    let is = |a: Node<P>, b: usize| a.ptr_eq(self.x(b));
                    check!(tg(), is(x.root().plain(), root), "wrong root of {w} n{n}");
                    check!(tg(), x.is_root() == (n == root), "wrong is_root of {w} n{n}");
                    check!(tg(), is(x.tree().root(), root), "wrong tree of {w} n{n}");
                    check!(tg(), x.belongs_to(&self.x(root).tree()), "belongs_to of {w} n{n} failed");
                    check!(
                        tg(),
                        x.count_ancestors() == d
                            && x.ancestors().count() == d
                            && x.ancestors_or_self().count() == d + 1,
                        "wrong ancestors of {w} n{n}"
                    );
                    let (a, b) = x.first_last_sibling();
                    let (e, f) = (sib[0], sib[sib.len() - 1]);
                    check!(
                        tg(),
                        is(a.plain(), e)
                            && is(b.plain(), f)
                            && is(x.first_sibling().plain(), e)
                            && is(x.last_sibling().plain(), f),
                        "wrong ends of the siblings of {w} n{n}"
                    );
                    let after = sib.len() - 1 - i;
                    check!(
                        tg(),
                        x.count_preceding_siblings() == i
                            && x.count_following_siblings() == after
                            && x.siblings().count() == sib.len()
                            && x.siblings_reverse().count() == sib.len()
                            && x.following_siblings().count() == after
                            && x.following_siblings_or_self().count() == after + 1
                            && x.preceding_siblings_reverse().count() == i
                            && x.preceding_siblings_or_self_reverse().count() == i + 1,
                        "wrong number of siblings of {w} n{n}"
                    );
                    check!(
                        tg(),
                        x.num_children() == kids.len()
                            && x.count_children() == kids.len()
                            && x.has_children() == !kids.is_empty()
                            && x.has_one_child() == (kids.len() == 1)
                            && x.has_multiple_children() == (kids.len() > 1)
                            && x.children().count() == kids.len()
                            && x.children_reverse().count() == kids.len(),
                        "wrong number of children of {w} n{n}"
                    );
                    let s = self.m.subtree(n).len();
                    check!(
                        tg(),
                        x.depth_first_traverse().count() == 2 * s
                            && x.depth_first_reverse_traverse().count() == 2 * s,
                        "wrong depth-first traversal of {w} n{n}"
                    );
                    let c = x.clone_subtree();
                    self.same("clone", &c, n);
                    check!(tg(), *x == c && c == *x, "the clone of {w} n{n} differs");
                    check!(
                        tg(),
                        x.plain().try_eq(&c).is_ok_and(|b| b),
                        "the clone of {w} n{n} differs"
                    );
                    let v = x.to_events().count();
                    check!(tg(), v > s && v <= 2 * s, "{v} events for {s} nodes of {w} n{n}");
                    // Shows one node only.
                    let mut o = Count::default();
                    let p = x.debug_print_local();
                    check!(tg(), write!(o, "{p:?}").is_ok() && o.bytes < 4000, "local print of {w} n{n}");
                }};
            }
            match self.src.draw(2) {
                0 => all!(&self.hot(n), "hot"),
                _ => match me.bundle_new_hierarchy_edit_prohibition() {
                    Ok(f) => {
                        all!(&f, "frozen");
                        let k = |t: dendron::traverse::StableSiblingsTraverser<P>| {
                            let c = t.clone().count();
                            let r = t.rev().count();
                            check!(tg(), c == r, "{c} stable siblings of n{n}, {r} from the back");
                            c
                        };
                        let after = sib.len() - 1 - i;
                        check!(
                            tg(),
                            k(f.siblings_stable()) == sib.len()
                                && k(f.children_stable()) == kids.len()
                                && k(f.preceding_siblings_stable()) == i
                                && k(f.preceding_siblings_or_self_stable()) == i + 1
                                && k(f.following_siblings_stable()) == after
                                && k(f.following_siblings_or_self_stable()) == after + 1,
                            "wrong stable siblings of n{n}"
                        );
                    }
                    Err(_) => fail(tg(), format!("frozen handle of n{n} refused")),
                },
            }
            let x = self.x(n);
            check!(
                tg(),
                x.first_sibling().ptr_eq(self.x(sib[0]))
                    && x.last_sibling().ptr_eq(self.x(sib[sib.len() - 1]))
                    && x.count_children() == kids.len(),
                "wrong siblings of n{n}"
            );
        }
    }
    /// Leaves subtrees of which only the top was seen.
    fn close_current(&mut self, n: usize) {
        let mode = self.src.draw(5);
        let lim = [None, Some(usize::MAX), Some(1 << 20)][self.src.draw(3)];
        // The path of first children is left at this depth.
        let d = 1 + self.src.draw(4);
        let mut at = n;
        let mut k = 1;
        while k < d && !self.m.nodes[at].children.is_empty() {
            at = self.m.nodes[at].children[0];
            k += 1;
        }
        // close_current closes the node which encloses the position before the next event.
        let kids = &self.m.nodes[at].children;
        let next = match kids.first() {
            Some(c) => (true, *c),
            None => (false, at),
        };
        let then = if at == n {
            None
        } else {
            let p = self.m.nodes[at].parent.unwrap();
            match self.m.nodes[p].children.get(1) {
                Some(s) => Some((true, *s)),
                None => Some((false, p)),
            }
        };
        let ev = |e: &DftEvent<Node<P>>| match e {
            DftEvent::Open(x) => (true, x.borrow_data().id() as usize),
            DftEvent::Close(x) => (false, x.borrow_data().id() as usize),
        };
        let val = |e: (bool, usize)| (e.0, self.m.nodes[e.1].val as usize);
                match mode {
            0 => {
                let mut t = self.x(n).depth_first_traverse();
                for _ in 0..k {
                    t.next();
                }
                check!(tg(), t.peek().map(ev) == Some(val(next)), "wrong event before closing");
                let c = t.close_current();
                check!(tg(), c.is_some_and(|c| c.ptr_eq(self.x(at))), "close_current closed another node");
                check!(tg(), t.next().as_ref().map(ev) == then.map(val), "wrong event after closing");
            }
            1 => {
                let mut t = self.fz(n).depth_first_traverse_stable();
                for _ in 0..k {
                    t.next();
                }
                let c = t.close_current();
                check!(
                    tg(),
                    c.is_some_and(|c| c.plain().ptr_eq(self.x(at))),
                    "stable close_current closed another node"
                );
                let e = t.next().map(|e| ev(&e.map(|x| x.plain())));
                check!(tg(), e == then.map(val), "wrong event after closing (stable)");
            }
            2 => {
                let mut t = self.fz(n).shallow_depth_first_traverse_stable(lim);
                for _ in 0..k {
                    t.next();
                }
                let c = t.close_current();
                check!(
                    tg(),
                    c.is_some_and(|(c, d)| d == k - 1 && c.plain().ptr_eq(self.x(at))),
                    "depth-limited close_current closed another node"
                );
                let e = t.next().map(|e| ev(&e.map(|x| x.0.plain())));
                check!(tg(), e == then.map(val), "wrong event after closing (depth-limited)");
            }
            3 => {
                let c = DftEvent::Open(self.x(at).clone()).close_current();
                check!(tg(), c.is_some_and(|c| c.ptr_eq(self.x(at))), "an event closed another node");
                let f = self.fz(n);
                let c = DftEvent::Open(f.clone()).close_current();
                check!(tg(), c.is_some_and(|c| c.ptr_eq(&f)), "a frozen event closed another node");
            }
            _ => {
                let h = self.hot(n);
                let c = DftEvent::Open(h.clone()).close_current();
                check!(tg(), c.is_some_and(|c| c.ptr_eq(&h)), "a hot event closed another node");
            }
        }
    }
    /// All events one after the other, without a traverser, and back.
    fn step_events(&mut self, n: usize) {
        let want = self.events(n);
        macro_rules! go {
            ($h:expr, $data:expr) => {{
                let h = $h;
                let data = $data;
                let mut e = DftEvent::Open(h);
                for i in 0..want.len() {
                    let g = match &e {
                        DftEvent::Open(x) => (true, data(x)),
                        DftEvent::Close(x) => (false, data(x)),
                    };
                    check!(tg(), g == want[i], "event {i} is {g:?}, expected {:?}", want[i]);
                    if i + 1 < want.len() {
                        e = match e.next() {
                            Some(e) => e,
                            None => fail(tg(), format!("there is no event after event {i}")),
                        };
                    }
                }
                for i in (0..want.len()).rev() {
                    let g = match &e {
                        DftEvent::Open(x) => (true, data(x)),
                        DftEvent::Close(x) => (false, data(x)),
                    };
                    check!(tg(), g == want[i], "event {i} from the back is {g:?}, expected {:?}", want[i]);
                    if i > 0 {
                        e = match e.prev() {
                            Some(e) => e,
                            None => fail(tg(), format!("there is no event before event {i}")),
                        };
                    }
                }
            }};
        }
        match self.src.draw(3) {
            0 => go!(self.x(n).clone(), |x: &Node<P>| x.borrow_data().id()),
            1 => go!(self.hot(n), |x: &HotNode<P>| x.borrow_data().id()),
            _ => match self.x(n).clone().bundle_new_hierarchy_edit_prohibition() {
                Ok(f) => go!(f, |x: &FrozenNode<P>| x.borrow_data().id()),
                Err(_) => fail(tg(), "frozen handle refused".into()),
            },
        }
    }
    /// The canonical events, and every way to build from events.
    fn typed(&mut self, n: usize) {
        let x = self.x(n).clone();
        let mut closes = 0;
        // (opened, number of closings)
        let mut want: Vec<(Option<u32>, usize)> = Vec::new();
        for (open, v) in self.events(n) {
            if open {
                if closes > 0 {
                    want.push((None, closes));
                }
                closes = 0;
                want.push((Some(v), 0));
            } else {
                closes += 1;
            }
        }
        want.push((None, closes));
        let all: Result<Vec<Event<P>>, _> = x.to_events().collect();
        let all = match all {
            Ok(a) => a,
            Err(_) => fail(tg(), "borrow error while serialising".into()),
        };
        check!(tg(), all.len() == want.len(), "{} events, expected {}", all.len(), want.len());
        for (i, (g, w)) in all.iter().zip(&want).enumerate() {
            let ok = match g {
                Event::Open(z) => w.0 == Some(z.id()),
                Event::Close(k) => w.0.is_none() && *k == w.1,
            };
            check!(tg(), ok, "serialisation: event {i} is {g:?}, expected {w:?}");
        }
        let e = "events were refused";
        let built: Node<P> = match self.src.draw(6) {
            0 => all.into_iter().collect::<Result<Node<P>, _>>().unwrap_or_else(|_| fail(tg(), e.into())),
            1 => all
                .into_iter()
                .collect::<Result<HotNode<P>, _>>()
                .unwrap_or_else(|_| fail(tg(), e.into()))
                .plain(),
            2 => all
                .into_iter()
                .collect::<Result<FrozenNode<P>, _>>()
                .unwrap_or_else(|_| fail(tg(), e.into()))
                .plain(),
            3 => {
                let mut b = TreeBuilder::new();
                check!(tg(), b.push_events(all).is_ok(), "push_events: {e}");
                check!(tg(), b.is_root_closed(), "push_events left the root open");
                b.finish().unwrap_or_else(|_| fail(tg(), "the builder did not finish".into()))
            }
            4 => {
                let mut b = TreeBuilder::new();
                let ev = x.depth_first_traverse();
                check!(tg(), b.push_dft_events(ev).is_ok(), "push_dft_events: {e}");
                b.finish().unwrap_or_else(|_| fail(tg(), "the builder did not finish".into()))
            }
            _ => x
                .depth_first_traverse()
                .collect::<Result<Node<P>, _>>()
                .unwrap_or_else(|_| fail(tg(), e.into())),
        };
        self.same("built from events", &built, n);
        check!(tg(), built == x, "the tree built from events differs");
    }
    /// Clones and size hints in the middle of a traversal.
    fn traversers(&mut self, n: usize) {
        let want = self.events(n);
        let at = self.src.draw(1 << 24) % (want.len() + 1);
        let left = want.len() - at;
        let f = match self.x(n).clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(f) => f,
            Err(_) => fail(tg(), "frozen handle refused".into()),
        };
        macro_rules! go {
            ($t:expr, $what:expr) => {{
                let mut t = $t;
                for _ in 0..at {
                    t.next();
                }
                let (lo, hi) = t.size_hint();
                check!(
                    tg(),
                    lo <= left && hi.map_or(true, |h| left <= h),
                    "{}: the size hint is {:?} with {left} items left",
                    $what,
                    (lo, hi)
                );
                check!(tg(), t.peek().is_some() == (left > 0), "{}: wrong peek", $what);
                let c = t.clone();
                let k = t.count();
                check!(tg(), k == left, "{}: {k} items left, expected {left}", $what);
                let k = c.count();
                check!(tg(), k == left, "{}: {k} items left in the clone, expected {left}", $what);
            }};
        }
        match self.src.draw(5) {
            0 => go!(self.x(n).depth_first_traverse(), "depth-first"),
            1 => go!(self.x(n).depth_first_reverse_traverse(), "reverse depth-first"),
            2 => go!(f.depth_first_traverse_stable(), "stable depth-first"),
            3 => go!(f.shallow_depth_first_traverse_stable(None), "depth-limited"),
            _ => {
                let t = f.allocating_breadth_first_traverse_stable(0);
                let s = want.len() / 2;
                let k = at % (s + 1);
                let mut t = t;
                for _ in 0..k {
                    t.next();
                }
                let (lo, hi) = t.size_hint();
                check!(
                    tg(),
                    lo <= s - k && hi.map_or(true, |h| s - k <= h),
                    "breadth-first: the size hint is {:?} with {} items left",
                    (lo, hi),
                    s - k
                );
                let c = t.clone();
                let (a, b) = (t.count(), c.count());
                check!(
                    tg(),
                    a == s - k && b == s - k,
                    "breadth-first: {a} items left, {b} in the clone, expected {}",
                    s - k
                );
            }
        }
    }
    fn plain(&mut self, n: usize) {
        let want = self.events(n);
        self.same("depth-first", self.x(n), n);
        let mut k = want.len();
        for e in self.x(n).depth_first_reverse_traverse() {
            let g = match &e {
                DftEvent::Open(x) => (true, x.borrow_data().id()),
                DftEvent::Close(x) => (false, x.borrow_data().id()),
            };
            check!(tg(), k > 0, "the reverse traversal does not end");
            k -= 1;
            // The reverse of the events.
            check!(tg(), want[k] == g, "reverse traversal: {g:?}, expected {:?}", want[k]);
        }
        check!(tg(), k == 0, "the reverse traversal ends early");
        let mut t = self.x(n).depth_first_traverse();
        t.next();
        t.next();
        let c = t.close_current();
        check!(tg(), c.is_some() == (want.len() > 2), "close_current inside the subtree gave nothing");
    }
    fn stable(&mut self, n: usize) {
        let want = self.events(n);
        let fz = match self.x(n).clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(f) => f,
            Err(_) => fail(tg(), "frozen handle refused".into()),
        };
        let ev = |e: &DftEvent<dendron::FrozenNode<P>>| match e {
            DftEvent::Open(x) => (true, x.borrow_data().id()),
            DftEvent::Close(x) => (false, x.borrow_data().id()),
        };
        let mut t = fz.depth_first_traverse_stable();
        let (mut a, mut b) = (0, want.len());
        let step = 1 + self.src.draw(4);
        loop {
            for _ in 0..step {
                if let Some(e) = t.next() {
                    check!(tg(), a < b && ev(&e) == want[a], "stable traversal: item {a} is {:?}", ev(&e));
                    a += 1;
                }
            }
            match t.next_back() {
                Some(e) => {
                    check!(tg(), a < b && ev(&e) == want[b - 1], "stable traversal from the back: {:?}", ev(&e));
                    b -= 1;
                }
                None => break,
            }
        }
        check!(tg(), a == b, "the stable traversal ends early: {} items left", b - a);
        // Depth-limited with a huge limit, and both breadth-first ones.
        let lim = [None, Some(usize::MAX), Some(want.len())][self.src.draw(3)];
        let k = fz.shallow_depth_first_traverse_stable(lim).count();
        check!(tg(), k == want.len(), "depth-limited traversal: {k} events, expected {}", want.len());
        let cnt = self.m.subtree(n).len();
        let mut q = vec![(n, 0)];
        let mut i = 0;
        while i < q.len() {
            let (x, d) = q[i];
            q.extend(self.m.nodes[x].children.iter().map(|c| (*c, d + 1)));
            i += 1;
        }
        for (i, (x, d)) in fz.allocating_breadth_first_traverse_stable(0).enumerate() {
            check!(
                tg(),
                i < cnt && d == q[i].1 && x.plain().ptr_eq(self.x(q[i].0)),
                "breadth-first item {i} is wrong"
            );
        }
        // This one searches anew for every node, so that only the beginning is affordable.
        for (i, (x, d)) in fz.non_allocating_breadth_first_traverse_stable(0).take(60).enumerate() {
            check!(
                tg(),
                i < cnt && d == q[i].1 && x.plain().ptr_eq(self.x(q[i].0)),
                "breadth-first (non-allocating) item {i} is wrong"
            );
        }
        let s = q.last().unwrap().1;
        let from = s.saturating_sub(2);
        let w: Vec<usize> = q.iter().filter(|e| e.1 >= from).map(|e| e.0).take(3).collect();
        for (i, (x, d)) in fz.non_allocating_breadth_first_traverse_stable(from).take(3).enumerate() {
            check!(
                tg(),
                i < w.len() && d >= from && x.plain().ptr_eq(self.x(w[i])),
                "breadth-first from depth {from}: item {i} is wrong"
            );
        }
        let kids = self.m.nodes[n].children.len();
        check!(tg(), fz.children_stable().rev().count() == kids, "wrong stable children of n{n}");
    }
    fn pretty(&mut self) {
        // The indentation takes space in proportion to depth, so the deep shapes are cut.
        let all = self.alive();
        let mut height = vec![0usize; self.m.nodes.len()];
        for x in all.iter().rev() {
            if let Some(p) = self.m.nodes[*x].parent {
                height[p] = height[p].max(height[*x] + 1);
            }
        }
        let n = *all.iter().find(|x| height[**x] < 3000).unwrap();
        let sub = self.m.subtree(n);
        // Depths relative to n.
        let mut depth = std::collections::HashMap::new();
        depth.insert(n, 0usize);
        let mut bytes = 0usize;
        for x in &sub {
            let d = if *x == n { 0 } else { depth[&self.m.nodes[*x].parent.unwrap()] + 1 };
            depth.insert(*x, d);
            bytes += 4 * d;
        }
        if bytes > 60_000_000 {
            return;
        }
        let mut w = Count::default();
        let disp = self.src.chance(1, 2);
        let p = self.x(n).debug_pretty_print();
        let r = if disp { write!(w, "{p}") } else { write!(w, "{p:?}") };
        check!(tg(), r.is_ok(), "printing failed");
        check!(tg(), w.lines + 1 == sub.len(), "{} lines printed for {} nodes", w.lines + 1, sub.len());
        let last = *sub.last().unwrap();
        let want = 4 * depth[&last] + self.x(last).borrow_data().to_string().len();
        check!(tg(), w.last.len() == want, "the last line has {} bytes, expected {want}", w.last.len());
    }
    fn end(mut self, way: usize) {
        let all = self.alive();
        let k = all.len();
        let root = self.m.trees[0].root;
        let live = self.live.clone();
        let at = self.src.draw(1 << 24) % k;
        let keep_n = all[at];
        let mut tree: Option<Tree<P>> = None;
        let mut weak = None;
        match way {
            // The last handle is the root, some node, the last leaf, the tree, or a traverser.
            0 => {
                let r = self.h[root].take();
                self.h.clear();
                check!(tg(), !P::COUNTED || live.load(Ordering::Relaxed) == k as isize, "data were dropped early");
                drop(r);
            }
            1 => {
                let r = self.h[keep_n].take();
                self.h.clear();
                check!(tg(), !P::COUNTED || live.load(Ordering::Relaxed) == k as isize, "data were dropped early");
                weak = r.as_ref().map(|r| r.downgrade());
                drop(r);
            }
            2 => {
                let r = self.h[all[k - 1]].take();
                while let Some(x) = self.h.pop() {
                    drop(x);
                }
                drop(r);
            }
            3 => {
                tree = Some(self.x(keep_n).tree());
                self.h.clear();
                check!(tg(), !P::COUNTED || live.load(Ordering::Relaxed) == k as isize, "data were dropped early");
                check!(
                    tg(),
                    tree.as_ref().unwrap().root().borrow_data().id() == self.m.nodes[root].val,
                    "wrong root"
                );
            }
            4 => {
                let mut t = self.x(root).depth_first_traverse();
                t.next();
                self.h.clear();
                check!(tg(), !P::COUNTED || live.load(Ordering::Relaxed) == k as isize, "data were dropped early");
                drop(t);
            }
            _ => {
                let g = self.hot(keep_n);
                self.h.clear();
                check!(tg(), !P::COUNTED || live.load(Ordering::Relaxed) == k as isize, "data were dropped early");
                drop(g);
            }
        }
        drop(tree);
        if let Some(w) = weak {
            check!(tg(), w.upgrade().is_none(), "a weak reference into the dead tree upgraded");
        }
        let left = live.load(Ordering::Relaxed);
        check!(tg(), left == 0, "{left} data were not dropped with the tree");
    }
}
