//! Stateful engine: random histories of edits and handle operations against the reference model.

use std::cell::{Cell, Ref, RefMut};
use std::collections::{HashMap, VecDeque};
use std::mem::ManuallyDrop;
use std::rc::Rc;

use dendron::serial::TreeBuilder;
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::{
    AdoptAs, FrozenNode, HierarchyEditGrant, HierarchyEditProhibition, HierarchyError, HotNode,
    InsertAs, Node, NodeWeak, Tree, TreeWeak,
};

use crate::cb;
use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::data::{set_bomb, set_drop_bomb, Tracker, BOMB_MSG, Watch, WatchNode, WatchTree, D};
use crate::model::{Model, Pos};
use crate::nav;

/// A traverser kept alive as a handle.
#[allow(dead_code)]
pub enum It {
    Dft(DepthFirstTraverser<D>),
    Rdft(ReverseDepthFirstTraverser<D>),
    Sib(SiblingsTraverser<D>),
    Rsib(ReverseSiblingsTraverser<D>),
    Anc(AncestorsTraverser<D>),
    SDft(StableDepthFirstTraverser<D>),
    Shallow(StableShallowDepthFirstTraverser<D>),
    SSib(StableSiblingsTraverser<D>),
    NBfs(NonAllocatingBreadthFirstTraverser<D>),
    ABfs(AllocatingBreadthFirstTraverser<D>),
    Ser(dendron::serial::TreeSerializeIter<D>),
    /// A single event, stepped by hand.
    Ev(DftEvent<Node<D>>),
}

/// What a kept traverser yields next, in terms of the model.
#[derive(Clone, Debug)]
pub enum Cur {
    /// The next event; the traversal ends with the last event of `start`.
    Ev {
        next: Option<(bool, usize)>,
        start: usize,
    },
    /// The next node.
    Node(Option<usize>),
    /// All that is left (the tree is frozen): open, node, depth.
    Seq(VecDeque<(bool, usize, usize)>),
}

/// A borrow of a node's data held across operations.
pub struct Held {
    sh: Option<Ref<'static, D>>,
    ex: Option<RefMut<'static, D>>,
    node: Option<Box<Node<D>>>,
}

impl Drop for Held {
    fn drop(&mut self) {
        self.sh = None;
        self.ex = None;
        self.node = None;
    }
}

pub enum S {
    N(Node<D>),
    H(HotNode<D>),
    F(FrozenNode<D>),
    T(Tree<D>),
    G(HierarchyEditGrant<D>),
    P(HierarchyEditProhibition<D>),
    B(Held),
    I(It, Cur),
    /// Many handles or tokens (of one kind, for one node or tree).
    M(Vec<S>),
}

pub struct Slot {
    pub s: S,
    /// Node (or tree, for `T`, `G`, `P`) the slot refers to.
    pub id: usize,
    /// For traversers: plain and frozen references held, by node.
    pub plain: Vec<usize>,
    pub frozen: Vec<usize>,
    /// For traversers: the number of edits when it was last looked at.
    pub stamp: u64,
}

enum NR {
    Slot(usize),
    Temp(Node<D>),
}
enum GR {
    Slot(usize),
    Temp(HierarchyEditGrant<D>),
}
enum Ed {
    Hot(usize),
    TempHot(HotNode<D>),
    Plain(NR, GR),
}
enum EdV<'a> {
    H(&'a HotNode<D>),
    P(&'a Node<D>, &'a HierarchyEditGrant<D>),
}
enum HR {
    Slot(usize),
    Temp(HotNode<D>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum E4 {
    Ok,
    Loop,
    Empty,
    NoParent,
    Borrow,
}

fn ecode(e: &HierarchyError) -> Option<E4> {
    Some(match e {
        HierarchyError::AncestorDescendantLoop => E4::Loop,
        HierarchyError::EmptyTree => E4::Empty,
        HierarchyError::SiblingsWithoutParent => E4::NoParent,
        HierarchyError::BorrowNodeData(_) => E4::Borrow,
        _ => return None,
    })
}

pub fn insert_as<'a>(kind: usize, h: &'a HotNode<D>) -> InsertAs<&'a HotNode<D>> {
    // The conversions keep the kind of place.
    let place = match kind % 4 {
        0 => InsertAs::FirstChildOf(()),
        1 => InsertAs::LastChildOf(()),
        2 => InsertAs::PreviousSiblingOf(()),
        _ => InsertAs::NextSiblingOf(()),
    };
    place.as_ref().map(|_| h)
}

pub fn adopt_as(kind: usize) -> AdoptAs {
    match kind % 4 {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}

#[derive(Clone)]
pub struct Profile {
    /// Operation weights, see `OPS`.
    pub w: [u32; 23],
    pub watch: bool,
    /// Whether code of the user uses the library when it is called.
    pub calls: bool,
    /// One in `full` operations is followed by a full check.
    pub full: usize,
    /// Percentage of operations that are deliberately invalid.
    pub invalid: usize,
    pub max_ops: usize,
    pub max_nodes: usize,
    /// One in `big` cases starts with a large tree.
    pub big: usize,
    pub max_slots: usize,
    /// Own tag set of the property, used to decide what is non-trivial.
    pub own: Tags,
}

pub const OP_NEW: usize = 0;
pub const OP_CREATE: usize = 1;
pub const OP_MOVE: usize = 2;
pub const OP_DETACH: usize = 3;
pub const OP_REPLACE: usize = 4;
pub const OP_CLONE_INS: usize = 5;
pub const OP_CLONE: usize = 6;
pub const OP_ACQUIRE: usize = 7;
pub const OP_CONVERT: usize = 8;
pub const OP_DROP: usize = 9;
pub const OP_PROBE: usize = 10;
pub const OP_DATA: usize = 11;
pub const OP_BORROW: usize = 12;
pub const OP_EXTRA: usize = 13;
pub const OP_BUILDER: usize = 14;
pub const OP_BADTOKEN: usize = 15;
pub const OP_DROPTREE: usize = 16;
pub const OP_ITER: usize = 17;
pub const OP_FULL: usize = 18;
pub const OP_LEAN: usize = 19;
pub const OP_MANY: usize = 20;
pub const OP_FAULT: usize = 21;
pub const OP_STEP: usize = 22;

pub fn profile(p: &str) -> Profile {
    //           new cre mov det rep cli cln acq cnv drp prb dat bor ext bld bad drt itr ful lean many fault step
    let mut w = [3, 14, 16, 6, 7, 3, 2, 8, 6, 10, 2, 3, 2, 1, 2, 2, 1, 2, 1, 2, 1, 1, 1];
    let mut watch = false;
    let mut full = 3;
    let mut invalid = 10;
    let mut max_slots = 12;
    match p {
        "C01" => full = 2,
        "C02" => {
            w[OP_CREATE] = 40;
            w[OP_BUILDER] = 3;
            full = 1;
        }
        "C03" => {
            w[OP_MOVE] = 30;
            w[OP_DETACH] = 10;
            w[OP_REPLACE] = 12;
            w[OP_LEAN] = 6;
            full = 1;
        }
        "C04" => {
            invalid = 55;
            w[OP_MOVE] = 24;
            w[OP_REPLACE] = 12;
            w[OP_CLONE_INS] = 10;
            w[OP_CLONE] = 6;
            w[OP_BORROW] = 6;
            full = 1;
        }
        "C05" => {
            w[OP_MANY] = 4;
            w[OP_FAULT] = 6;
            w[OP_DROP] = 24;
            w[OP_DROPTREE] = 4;
            w[OP_EXTRA] = 4;
            w[OP_ITER] = 5;
            w[OP_STEP] = 5;
            w[OP_LEAN] = 8;
            w[OP_DATA] = 4;
            w[OP_CONVERT] = 12;
            w[OP_ACQUIRE] = 14;
            full = 6;
            max_slots = 10;
        }
        "C06" => {
            watch = true;
            w[OP_DROP] = 24;
            w[OP_DROPTREE] = 4;
            w[OP_EXTRA] = 4;
            w[OP_LEAN] = 10;
            w[OP_DATA] = 5;
            full = 8;
            max_slots = 8;
        }
        "C08" => {
            w[OP_MANY] = 5;
            w[OP_ACQUIRE] = 24;
            w[OP_CONVERT] = 20;
            w[OP_DROP] = 24;
            w[OP_PROBE] = 10;
            w[OP_ITER] = 5;
            full = 8;
        }
        "C09" => {
            w[OP_MANY] = 4;
            w[OP_ACQUIRE] = 22;
            w[OP_CONVERT] = 14;
            w[OP_MOVE] = 24;
            w[OP_DETACH] = 12;
            w[OP_REPLACE] = 10;
            w[OP_BADTOKEN] = 14;
            w[OP_PROBE] = 8;
            full = 5;
            max_slots = 14;
        }
        "C10" => {
            w[OP_MOVE] = 22;
            w[OP_DETACH] = 10;
            w[OP_REPLACE] = 12;
            w[OP_ACQUIRE] = 12;
            full = 2;
        }
        "C16" => {
            w[OP_CLONE_INS] = 30;
            w[OP_CLONE] = 24;
            w[OP_FAULT] = 6;
            w[OP_BORROW] = 8;
            w[OP_DATA] = 8;
            full = 1;
        }
        "C18" => {
            w[OP_BORROW] = 20;
            w[OP_FAULT] = 6;
            w[OP_DATA] = 20;
            w[OP_ITER] = 3;
            full = 2;
        }
        "C22" => {
            w[OP_FAULT] = 40;
            w[OP_CLONE_INS] = 10;
            w[OP_CLONE] = 8;
            w[OP_DATA] = 6;
            w[OP_DROP] = 16;
            w[OP_DROPTREE] = 3;
            w[OP_LEAN] = 12;
            w[OP_EXTRA] = 4;
            full = 10;
        }
        "C23" => {
            w[OP_FAULT] = 5;
            w[OP_BUILDER] = 6;
            w[OP_CLONE_INS] = 6;
            w[OP_EXTRA] = 3;
            w[OP_LEAN] = 4;
            full = 12;
        }
        "C21" => {
            w[OP_ITER] = 24;
            w[OP_STEP] = 60;
            w[OP_MOVE] = 24;
            w[OP_DETACH] = 10;
            w[OP_REPLACE] = 12;
            w[OP_ACQUIRE] = 3;
            w[OP_DROP] = 5;
            w[OP_LEAN] = 3;
            full = 12;
        }
        _ => {}
    }
    Profile {
        w,
        watch,
        calls: p == "C22",
        full,
        invalid,
        max_ops: 40,
        max_nodes: 26,
        big: 25,
        max_slots,
        own: if p.len() == 3 { tag_of(p) } else { 0 },
    }
}

pub struct World {
    m: Model,
    tr: Rc<Tracker>,
    weak: Vec<NodeWeak<D>>,
    tweak: Vec<Option<TreeWeak<D>>>,
    slots: Vec<Slot>,
    /// Traversals that have come to their end.
    ended: Vec<It>,
    prof: Profile,
    /// Properties the operations since the last full check belong to.
    since: Tags,
    next_val: u32,
    pending_weak_trees: bool,
    /// Number of structural edits so far.
    edits: u64,
    /// Seed of what the next callbacks do.
    calls: u64,
}

pub fn run(src: &mut Src, prof: Profile) {
    cb::clear();
    let mut w = ManuallyDrop::new(World::new(prof));
    if w.prof.calls {
        w.calls = src.draw(1000) as u64 * 1000;
    }
    w.main(src);
    unsafe { ManuallyDrop::drop(&mut w) };
}

impl World {
    fn new(prof: Profile) -> Self {
        World {
            m: Model::default(),
            tr: Tracker::new(),
            weak: Vec::new(),
            tweak: Vec::new(),
            slots: Vec::new(),
            ended: Vec::new(),
            prof,
            since: 0,
            next_val: 0,
            pending_weak_trees: false,
            edits: 0,
            calls: 0,
        }
    }

    fn val(&mut self, src: &mut Src) -> u32 {
        if src.chance(1, 4) {
            1
        } else {
            self.next_val += 1;
            self.next_val
        }
    }

    fn bt(&self) -> Tags {
        if self.slots.iter().any(|s| matches!(s.s, S::B(_))) {
            C18
        } else {
            0
        }
    }

    fn main(&mut self, src: &mut Src) {
        let big = self.prof.big > 0 && src.chance(1, self.prof.big);
        let (max_ops, max_nodes) = if big {
            (14, 170)
        } else {
            (self.prof.max_ops, self.prof.max_nodes)
        };
        src.mark();
        // Now and then beyond what 8 bits count.
        let first = match big {
            false => 0,
            true if src.chance(1, 10) => 258 + src.draw(30),
            true => 60 + src.draw(60),
        };
        self.op_new(src, first);
        for _ in 0..max_ops {
            src.mark();
            // A zero draw ends the history, so that shrinking can cut it short.
            if src.draw(30) == 0 || src.exhausted() {
                break;
            }
            let mut w = self.prof.w;
            if self.m.alive_nodes().len() > max_nodes {
                w[OP_NEW] = 0;
                w[OP_CREATE] = 0;
                w[OP_CLONE] = 0;
                w[OP_CLONE_INS] = 0;
                w[OP_BUILDER] = 0;
                w[OP_DROPTREE] += 4;
            }
            if self.slots.len() > self.prof.max_slots {
                w[OP_DROP] += 40;
            }
            if self.m.alive_trees().is_empty() {
                self.op_new(src, 0);
                continue;
            }
            refuel(2_000_000);
            match src.weighted(&w) {
                OP_NEW => self.op_new(src, 0),
                OP_CREATE => self.op_create(src),
                OP_MOVE => self.op_move(src),
                OP_DETACH => self.op_detach(src),
                OP_REPLACE => self.op_replace(src),
                OP_CLONE_INS => self.op_clone_insert(src),
                OP_CLONE => self.op_clone(src),
                OP_ACQUIRE => self.op_acquire(src),
                OP_CONVERT => self.op_convert(src),
                OP_DROP => self.op_drop(src),
                OP_PROBE => self.probe_locks(C08 | self.since),
                OP_DATA => self.op_data(src),
                OP_BORROW => self.op_borrow(src),
                OP_EXTRA => self.op_extra(src),
                OP_BUILDER => self.op_builder(src),
                OP_BADTOKEN => self.op_badtoken(src),
                OP_DROPTREE => self.op_droptree(src),
                OP_ITER => self.op_iter(src),
                OP_LEAN => self.op_lean(src),
                OP_FAULT => self.op_fault(src),
                OP_STEP => self.op_step(src),
                // Rare: it takes as long as many other operations.
                OP_MANY if src.chance(1, 4) => self.op_many(src),
                OP_MANY => self.probe_locks(C08 | self.since),
                _ => self.full(src),
            }
            self.light();
            if src.chance(1, self.prof.full) {
                self.full(src);
            }
        }
        src.mark();
        self.full(src);
        self.finish(src);
    }

    // ----------------------------------------------------------------- begin / end of an operation

    /// Sets up the destructor expectations for the coming operation and the panic attribution.
    fn begin(&mut self, panic_tags: Tags, post: &Model) {
        set_scope(panic_tags | self.bt());
        if self.prof.calls {
            cb::set_stage(Some(cb::Stage {
                weak: self.weak.clone(),
                keep: (0..self.weak.len())
                    .filter(|i| self.m.nodes[*i].alive && post.nodes[*i].alive)
                    .collect(),
                pre: self.m.clone(),
                post: post.clone(),
                seed: Cell::new(self.calls),
            }));
            self.calls += 1;
        }
        if self.prof.watch {
            let mut w = Watch {
                nodes: Vec::new(),
                trees: Vec::new(),
                dying: vec![None; self.tr.state.borrow().len()],
            };
            for (i, n) in self.m.nodes.iter().enumerate() {
                if n.alive {
                    let alive_after = post.nodes[i].alive;
                    w.nodes.push(WatchNode {
                        weak: self.weak[i].clone(),
                        did: n.did,
                        alive_after,
                        tree_after: post.nodes[i].tree,
                    });
                    // A datum that is replaced is destroyed before the tree dies (it may own the
                    // last handle of its own tree).
                    if !alive_after && post.nodes[i].did == n.did {
                        w.dying[n.did as usize] = Some(post.nodes[i].tree);
                    }
                }
            }
            for (t, mt) in self.m.trees.iter().enumerate() {
                if let (true, Some(weak)) = (mt.alive, &self.tweak[t]) {
                    w.trees.push(WatchTree {
                        weak: weak.clone(),
                        tid: t,
                        alive_after: post.trees[t].alive,
                    });
                }
            }
            *self.tr.watch.borrow_mut() = Some(Rc::new(w));
        }
    }

    fn end(&mut self, post: Model, since: Tags) {
        set_scope(0);
        *self.tr.watch.borrow_mut() = None;
        if self.prof.calls {
            cb::set_stage(None);
            if let Some(e) = cb::error() {
                fail(C22, e);
            }
            if cb::runs() > 0 {
                class("callback of the user used the library");
                nontrivial();
            }
        }
        self.m = post;
        self.since |= since | self.bt();
        if since & (C02 | C03 | C16) != 0 {
            self.edits += 1;
        }
        // Weak references of new nodes and trees.
        while self.tweak.len() < self.m.trees.len() {
            self.tweak.push(None);
        }
        let e = self.tr.weak_error.borrow_mut().take();
        if let Some(e) = e {
            fail(C06, format!("{e}; model {}", self.m.show_all()));
        }
    }

    fn light(&mut self) {
        let e = self.tr.error.borrow_mut().take();
        if let Some(e) = e {
            fail(C05 | self.since, e);
        }
        let mut want: Vec<u32> = self
            .m
            .nodes
            .iter()
            .filter(|n| n.alive)
            .map(|n| n.did)
            .collect();
        want.sort_unstable();
        let got = self.tr.live();
        if want != got {
            let early: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
            let late: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
            fail(
                C05 | (self.since & (C04 | C03)) | if late.is_empty() { 0 } else { C23 },
                format!(
                    "live data differ: dropped too early {early:?}, not dropped {late:?}; model {}",
                    self.m.show_all()
                ),
            );
        }
        lib(C06, || {
            for (i, n) in self.m.nodes.iter().enumerate() {
                let up = self.weak[i].upgrade();
                check!(
                    C06 | C05,
                    up.is_some() == n.alive,
                    "weak reference to n{i}: upgrade gives {}, node is {}; model {}",
                    if up.is_some() { "a node" } else { "nothing" },
                    if n.alive { "alive" } else { "dead" },
                    self.m.show_all()
                );
            }
            for (t, mt) in self.m.trees.iter().enumerate() {
                match &self.tweak[t] {
                    Some(w) => {
                        let up = w.upgrade();
                        check!(
                            C06 | C05,
                            up.is_some() == mt.alive,
                            "weak reference to tree t{t}: upgrade gives {}, tree is {}",
                            if up.is_some() { "a tree" } else { "nothing" },
                            if mt.alive { "alive" } else { "dead" }
                        );
                    }
                    None => {
                        if mt.alive {
                            self.pending_weak_trees = true;
                        }
                    }
                }
            }
        });
        if self.pending_weak_trees {
            self.pending_weak_trees = false;
            for t in self.m.alive_trees() {
                if self.tweak[t].is_none() {
                    let n = self.temp(self.m.trees[t].root);
                    self.tweak[t] = Some(lib(C10 | C06, || n.tree().downgrade()));
                }
            }
        }
    }

    /// A temporary plain handle of a live node.
    fn temp(&self, n: usize) -> Node<D> {
        match lib(C06, || self.weak[n].upgrade()) {
            Some(x) => x,
            None => fail(
                C06 | C05 | self.since,
                format!("weak reference to live n{n} does not upgrade"),
            ),
        }
    }

    fn handles(&self, tid: usize) -> Vec<Option<Node<D>>> {
        let mut h: Vec<Option<Node<D>>> = Vec::new();
        h.resize_with(self.m.nodes.len(), || None);
        for n in self.m.subtree(self.m.trees[tid].root) {
            h[n] = Some(self.temp(n));
        }
        h
    }

    fn full(&mut self, src: &mut Src) {
        let tags = C01 | self.since;
        let pick = src.draw(4);
        let trees = self.m.alive_trees();
        if self.prof.own & C01 != 0
            && self.since & (C02 | C03 | C16) != 0
            && trees.iter().any(|t| self.m.subtree(self.m.trees[*t].root).len() >= 4)
        {
            nontrivial();
        }
        let mut tree_handles: Vec<(usize, Tree<D>)> = Vec::new();
        let mut all: Vec<(usize, Node<D>)> = Vec::new();
        for t in &trees {
            let h = self.handles(*t);
            nav::check_tree(&self.m, *t, &h, tags, pick == 1, pick == 2);
            // Data.
            lib(C18 | self.since, || {
                for n in self.m.subtree(self.m.trees[*t].root) {
                    let mn = &self.m.nodes[n];
                    let x = h[n].as_ref().unwrap();
                    macro_rules! on { ($x:expr) => {{
                    let x = $x;
                    match x.try_borrow_data() {
                        Ok(d) => {
                            check!(
                                C18 | self.since,
                                !mn.xb,
                                "shared borrow of n{n} succeeded during an exclusive one"
                            );
                            check!(
                                C18 | self.since,
                                d.id == mn.did && d.val == mn.val,
                                "data of n{n}: got #{}={}, expected #{}={}",
                                d.id,
                                d.val,
                                mn.did,
                                mn.val
                            );
                        }
                        Err(_) => check!(
                            C18 | self.since,
                            mn.xb,
                            "shared borrow of n{n} refused though it is not exclusively borrowed"
                        ),
                    };
                    check!(
                        C18 | self.since,
                        x.try_borrow_data_mut().is_ok() == (!mn.xb && mn.sh == 0),
                        "exclusive borrow of n{n}: wrong answer (shared {}, exclusive {})",
                        mn.sh,
                        mn.xb
                    );
                    }};}
                    if pick == 1 {
                        if let Ok(f) = x.clone().bundle_new_hierarchy_edit_prohibition() {
                            on!(&f);
                        }
                    } else if pick == 2 {
                        if let Ok(f) = x.clone().bundle_new_hierarchy_edit_grant() {
                            on!(&f);
                        }
                    }
                    on!(x);
                }
            });
            let root = h[self.m.trees[*t].root].clone().unwrap();
            let tree = lib(C10, || root.tree());
            tree_handles.push((*t, tree));
            for (n, x) in h.into_iter().enumerate() {
                if let Some(x) = x {
                    all.push((n, x));
                }
            }
        }
        // Identity and membership.
        let ct = C10 | (self.since & C03);
        lib(ct, || {
            for s in &self.slots {
                match &s.s {
                    S::T(t) if self.m.trees[s.id].alive => {
                        let r = t.root();
                        let want = self.temp(self.m.trees[s.id].root);
                        check!(
                            ct | C01,
                            r.ptr_eq(&want),
                            "root() of a handle of t{} is not n{}",
                            s.id,
                            self.m.trees[s.id].root
                        );
                        for (t2, h2) in &tree_handles {
                            check!(
                                ct,
                                t.ptr_eq(h2) == (*t2 == s.id),
                                "tree handle of t{} ptr_eq t{t2} is wrong",
                                s.id
                            );
                        }
                        for (n, x) in &all {
                            check!(
                                ct,
                                x.belongs_to(t) == (self.m.nodes[*n].tree == s.id),
                                "n{n} belongs_to a handle of t{} is wrong",
                                s.id
                            );
                        }
                    }
                    S::N(x) => self.node_identity(ct, s.id, x, &all),
                    S::H(x) => {
                        self.node_identity(ct, s.id, &x.plain(), &all);
                        for (t2, h2) in &tree_handles {
                            check!(
                                ct,
                                x.belongs_to(h2) == (*t2 == self.m.nodes[s.id].tree),
                                "hot n{} belongs_to t{t2} is wrong",
                                s.id
                            );
                        }
                        for s2 in &self.slots {
                            if let S::H(y) = &s2.s {
                                check!(
                                    ct,
                                    x.ptr_eq(y) == (s.id == s2.id)
                                        && x.belongs_to_same_tree(y)
                                            == (self.m.nodes[s.id].tree
                                                == self.m.nodes[s2.id].tree),
                                    "hot n{} vs hot n{}: wrong identity",
                                    s.id,
                                    s2.id
                                );
                            }
                        }
                        for (n, y) in &all {
                            check!(
                                ct,
                                x.ptr_eq_plain(y) == (s.id == *n),
                                "hot n{} ptr_eq_plain n{n} is wrong",
                                s.id
                            );
                        }
                    }
                    S::F(x) => {
                        self.node_identity(ct, s.id, &x.plain(), &all);
                        for (t2, h2) in &tree_handles {
                            check!(
                                ct,
                                x.belongs_to(h2) == (*t2 == self.m.nodes[s.id].tree),
                                "frozen n{} belongs_to t{t2} is wrong",
                                s.id
                            );
                        }
                        for s2 in &self.slots {
                            if let S::F(y) = &s2.s {
                                check!(
                                    ct,
                                    x.ptr_eq(y) == (s.id == s2.id)
                                        && x.belongs_to_same_tree(y)
                                            == (self.m.nodes[s.id].tree
                                                == self.m.nodes[s2.id].tree),
                                    "frozen n{} vs frozen n{}: wrong identity",
                                    s.id,
                                    s2.id
                                );
                            }
                        }
                    }
                    S::G(g) => {
                        for (n, x) in &all {
                            check!(
                                C09 | self.since,
                                g.is_valid_for_node(x) == (self.m.nodes[*n].tree == s.id),
                                "grant of t{} valid for n{n} (in t{}): wrong answer",
                                s.id,
                                self.m.nodes[*n].tree
                            );
                        }
                    }
                    S::P(g) => {
                        for (n, x) in &all {
                            check!(
                                C09 | self.since,
                                g.is_valid_for_node(x) == (self.m.nodes[*n].tree == s.id),
                                "prohibition of t{} valid for n{n} (in t{}): wrong answer",
                                s.id,
                                self.m.nodes[*n].tree
                            );
                        }
                    }
                    _ => {}
                }
            }
            for (n, x) in &all {
                let mt = self.m.nodes[*n].tree;
                let xt = x.tree();
                let want_root = self.m.trees[mt].root;
                check!(
                    ct,
                    xt.root().ptr_eq(&self.temp(want_root)),
                    "tree().root() of n{n} is not n{want_root}; model {}",
                    self.m.show_all()
                );
                if let Some(tw) = &self.tweak[mt] {
                    check!(
                        ct | C06,
                        tw.upgrade().is_some_and(|u| u.ptr_eq(&xt)),
                        "the weak reference of t{mt} upgrades to another tree than the one of n{n}"
                    );
                }
                for (t2, h2) in &tree_handles {
                    check!(
                        ct,
                        xt.ptr_eq(h2) == (*t2 == mt) && x.belongs_to(h2) == (*t2 == mt),
                        "n{n} of t{mt} against t{t2}: wrong tree identity; model {}",
                        self.m.show_all()
                    );
                }
            }
        });
        drop(all);
        drop(tree_handles);
        self.probe_locks(C08 | (self.since & (C03 | C04 | C09)));
        self.since = 0;
    }

    fn node_identity(&self, ct: Tags, id: usize, x: &Node<D>, all: &[(usize, Node<D>)]) {
        for (n, y) in all {
            check!(ct, x.ptr_eq(y) == (*n == id), "n{id} ptr_eq n{n} is wrong");
            check!(
                ct,
                x.belongs_to_same_tree(y) == (self.m.nodes[*n].tree == self.m.nodes[id].tree),
                "n{id} belongs_to_same_tree n{n} is wrong; model {}",
                self.m.show_all()
            );
        }
    }

    /// Requests both kinds of token on every tree and compares with the model.
    fn probe_locks(&mut self, tags: Tags) {
        for t in self.m.alive_trees() {
            let root = self.temp(self.m.trees[t].root);
            let (hot, fro) = (self.m.hot(t), self.m.frozen(t));
            lib(tags, || {
                let tree = root.tree();
                let g = tree.grant_hierarchy_edit();
                check!(
                    tags,
                    g.is_ok() == (fro == 0),
                    "grant request on t{t}: {}, though {fro} prohibition holders and {hot} grant holders are alive",
                    if g.is_ok() { "accepted" } else { "refused" }
                );
                if g.is_ok() {
                    check!(
                        tags,
                        tree.prohibit_hierarchy_edit().is_err(),
                        "prohibition accepted on t{t} while a grant is alive"
                    );
                }
                drop(g);
                let p = tree.prohibit_hierarchy_edit();
                check!(
                    tags,
                    p.is_ok() == (hot == 0),
                    "prohibition request on t{t}: {}, though {hot} grant holders and {fro} prohibition holders are alive",
                    if p.is_ok() { "accepted" } else { "refused" }
                );
                if p.is_ok() {
                    check!(
                        tags,
                        tree.grant_hierarchy_edit().is_err(),
                        "grant accepted on t{t} while a prohibition is alive"
                    );
                }
                drop(p);
            });
        }
    }

    // ------------------------------------------------------------------------------- selections

    fn pick_node(&mut self, src: &mut Src) -> usize {
        let alive = self.m.alive_nodes();
        if src.chance(1, 2) {
            let with: Vec<usize> = self
                .slots
                .iter()
                .filter(|s| matches!(s.s, S::N(_) | S::H(_) | S::F(_)))
                .map(|s| s.id)
                .collect();
            if !with.is_empty() {
                return *src.pick(&with);
            }
        }
        *src.pick(&alive)
    }

    /// A node of a tree that can be edited now.
    fn pick_editable(&mut self, src: &mut Src) -> Option<usize> {
        for _ in 0..3 {
            let n = self.pick_node(src);
            if self.m.frozen(self.m.nodes[n].tree) == 0 {
                return Some(n);
            }
        }
        // Release whatever prohibits editing of the tree of some node.
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        let mut i = 0;
        while i < self.slots.len() {
            let s = &self.slots[i];
            let blocks = match &s.s {
                S::F(_) => self.m.nodes[s.id].tree == t,
                S::P(_) => s.id == t,
                S::I(..) => s.frozen.iter().any(|x| self.m.nodes[*x].tree == t),
                S::M(v) => match &v[0] {
                    S::F(_) => self.m.nodes[s.id].tree == t,
                    S::P(_) => s.id == t,
                    _ => false,
                },
                _ => false,
            };
            if blocks {
                self.drop_slot(i);
                self.light();
            } else {
                i += 1;
            }
        }
        if self.m.nodes[n].alive && self.m.frozen(self.m.nodes[n].tree) == 0 {
            Some(n)
        } else {
            None
        }
    }

    fn sel_node(&mut self, src: &mut Src, n: usize) -> NR {
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| self.slots[*i].id == n && matches!(self.slots[*i].s, S::N(_)))
            .collect();
        if !c.is_empty() && !src.chance(1, 5) {
            NR::Slot(*src.pick(&c))
        } else {
            NR::Temp(self.temp(n))
        }
    }

    fn sel_grant(&mut self, src: &mut Src, t: usize) -> GR {
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| self.slots[*i].id == t && matches!(self.slots[*i].s, S::G(_)))
            .collect();
        if !c.is_empty() && !src.chance(1, 5) {
            return GR::Slot(*src.pick(&c));
        }
        let root = self.temp(self.m.trees[t].root);
        match lib(C08, || root.tree().grant_hierarchy_edit()) {
            Ok(g) => GR::Temp(g),
            Err(_) => fail(
                C08 | self.since,
                format!("grant refused on t{t} though nothing prohibits editing"),
            ),
        }
    }

    fn sel_hot(&mut self, src: &mut Src, n: usize) -> HR {
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| self.slots[*i].id == n && matches!(self.slots[*i].s, S::H(_)))
            .collect();
        if !c.is_empty() && !src.chance(1, 5) {
            return HR::Slot(*src.pick(&c));
        }
        let x = self.temp(n);
        match lib(C08, || x.bundle_new_hierarchy_edit_grant()) {
            Ok(h) => HR::Temp(h),
            Err(_) => fail(
                C08 | self.since,
                format!("hot handle of n{n} refused though nothing prohibits editing"),
            ),
        }
    }

    fn sel_ed(&mut self, src: &mut Src, n: usize) -> Ed {
        if src.chance(1, 2) {
            let g = {
                let t = self.m.nodes[n].tree;
                self.sel_grant(src, t)
            };
            Ed::Plain(self.sel_node(src, n), g)
        } else {
            match self.sel_hot(src, n) {
                HR::Slot(i) => Ed::Hot(i),
                HR::Temp(h) => Ed::TempHot(h),
            }
        }
    }

    fn nr<'a>(&'a self, r: &'a NR) -> &'a Node<D> {
        match r {
            NR::Slot(i) => match &self.slots[*i].s {
                S::N(x) => x,
                _ => unreachable!(),
            },
            NR::Temp(x) => x,
        }
    }
    fn gr<'a>(&'a self, r: &'a GR) -> &'a HierarchyEditGrant<D> {
        match r {
            GR::Slot(i) => match &self.slots[*i].s {
                S::G(x) => x,
                _ => unreachable!(),
            },
            GR::Temp(x) => x,
        }
    }
    fn hr<'a>(&'a self, r: &'a HR) -> &'a HotNode<D> {
        match r {
            HR::Slot(i) => match &self.slots[*i].s {
                S::H(x) => x,
                _ => unreachable!(),
            },
            HR::Temp(x) => x,
        }
    }
    fn ed<'a>(&'a self, e: &'a Ed) -> EdV<'a> {
        match e {
            Ed::Hot(i) => match &self.slots[*i].s {
                S::H(x) => EdV::H(x),
                _ => unreachable!(),
            },
            Ed::TempHot(h) => EdV::H(h),
            Ed::Plain(n, g) => EdV::P(self.nr(n), self.gr(g)),
        }
    }
    fn ed_name(e: &Ed) -> &'static str {
        match e {
            Ed::Hot(_) => "hot slot",
            Ed::TempHot(_) => "temporary hot",
            Ed::Plain(..) => "plain+grant",
        }
    }

    /// Whether a new handle of the result should be kept; updates the model.
    fn push(&mut self, s: S, id: usize) {
        self.slots.push(Slot {
            s,
            id,
            plain: Vec::new(),
            frozen: Vec::new(),
            stamp: 0,
        });
    }

    /// Result of an edit against the accepted outcomes.
    fn expect_result(
        &self,
        what: &str,
        op: Tags,
        got: Result<(), HierarchyError>,
        want: &[E4],
    ) -> bool {
        let code = match &got {
            Ok(()) => Some(E4::Ok),
            Err(e) => ecode(e),
        };
        let ok = code.is_some_and(|c| want.contains(&c));
        if !ok {
            fail(
                op | C04,
                format!(
                    "{what}: got {:?}, expected {want:?}; model {}",
                    got.map_err(|e| e.to_string()),
                    self.m.show_all()
                ),
            );
        }
        got.is_ok()
    }

    // ------------------------------------------------------------------------------- operations

    fn op_new(&mut self, src: &mut Src, min: usize) {
        // Parent of each further node, by index of earlier nodes.
        let style = src.draw(5);
        let count = if min > 0 {
            min
        } else if src.chance(1, 2) {
            3 + src.draw(10)
        } else {
            src.draw(5)
        };
        let mut post = self.m.clone();
        let v0 = self.val(src);
        let d0 = self.tr.make(v0);
        let tid = post.trees.len();
        let root = post.new_tree(d0.id, v0);
        let via = src.draw(4);
        let keep = src.draw(4);
        let mut parents = Vec::new();
        for i in 0..count {
            let p = match style {
                _ if count > 200 => [i, 0, i - i % 2, i / 2][style % 4],
                0 => src.draw(i + 1),
                1 => i,
                2 => 0,
                3 => i.saturating_sub(src.draw(3)),
                _ => src.draw(i + 1) / 2,
            };
            parents.push(p);
        }
        log(|| format!("new tree t{tid} root n{root} (via {via}), nodes below parents {parents:?}"));
        finger(1000 + parents.iter().fold(7u64, |a, p| a.wrapping_mul(31) + *p as u64));
        let mut ids = vec![root];
        let mut data = Vec::new();
        for p in &parents {
            let v = self.val(src);
            let d = self.tr.make(v);
            ids.push(post.create(Pos::Last(ids[*p]), d.id, v));
            data.push(d);
        }
        let hot = keep == 1;
        match keep {
            1 => post.nodes[root].h += 1,
            2 => post.trees[tid].refs += 1,
            _ => post.nodes[root].n += 1,
        }
        post.settle();
        self.begin(C02 | C01, &post);
        let mut hs: Vec<HotNode<D>> = Vec::new();
        let r = if via == 0 {
            let n = Node::new_tree(d0);
            match n.bundle_new_hierarchy_edit_grant() {
                Ok(h) => h,
                Err(_) => fail(C08 | C02, "a new tree refuses a grant".into()),
            }
        } else {
            HotNode::new_tree(d0)
        };
        hs.push(r);
        for (p, d) in parents.iter().zip(data) {
            let h = hs[*p].create_as_last_child(d);
            hs.push(h);
        }
        for h in &hs {
            self.weak.push(h.plain().downgrade());
        }
        let r = hs.swap_remove(0);
        drop(hs);
        let s = if hot {
            S::H(r)
        } else if keep == 2 {
            S::T(r.tree())
        } else {
            S::N(r.into())
        };
        let id = if keep == 2 { tid } else { root };
        self.push(s, id);
        self.end(post, C02);
    }

    fn op_create(&mut self, src: &mut Src) {
        let Some(n) = self.pick_editable(src) else {
            return;
        };
        let invalid = src.chance(self.prof.invalid, 100);
        let n = if invalid { self.m.root_of(n) } else { n };
        // 0..4 positions; 4 interrupting parent; 5 interrupting child
        let mut kind = src.draw(6);
        if invalid {
            kind = 2 + kind % 2;
        }
        let as_adopt = src.chance(1, 3);
        let panicking = src.chance(1, 3);
        let keep = src.draw(3);
        let pos = Pos::make(kind, n);
        let v = self.val(src);
        let d = self.tr.make(v);
        let did = d.id;
        let bad = kind < 4 && pos.is_sibling() && self.m.is_root(n);
        let mut post = self.m.clone();
        let mut new = usize::MAX;
        if !bad {
            new = match kind {
                4 => post.interrupt_parent(n, did, v),
                5 => post.interrupt_child(n, did, v),
                _ => post.create(pos, did, v),
            };
        }
        let e = self.sel_ed(src, n);
        let is_hot = !matches!(e, Ed::Plain(..));
        if !bad && keep > 0 {
            if is_hot && keep == 1 {
                post.nodes[new].h += 1;
            } else {
                post.nodes[new].n += 1;
            }
        }
        post.settle();
        let what = format!(
            "create {} n{n} through {} (adopt {as_adopt}, panicking {panicking})",
            ["first child of", "last child of", "prev sibling of", "next sibling of", "interrupting parent of", "interrupting child of"][kind],
            Self::ed_name(&e)
        );
        log(|| format!("{what} -> n{new} #{did}, keep {keep}"));
        class(["create first", "create last", "create prev", "create next", "interrupt parent", "interrupt child"][kind]);
        if bad {
            class("rejected create");
        }
        finger(2000 + (kind * 8 + usize::from(bad) * 4 + usize::from(is_hot)) as u64);
        if self.prof.own & C02 != 0 && self.m.nodes[n].parent.is_some() && !bad {
            nontrivial();
        }
        if bad {
            self.note_rejected();
        }
        let op = C02;
        self.begin(op | C01 | if bad { C04 } else { 0 }, &post);
        enum R {
            N(Node<D>),
            H(HotNode<D>),
        }
        let res: Result<Result<R, HierarchyError>, String> = may_panic(|| match self.ed(&e) {
            EdV::H(h) => match kind {
                4 => Ok(R::H(h.create_as_interrupting_parent(d))),
                5 => Ok(R::H(h.create_as_interrupting_child(d))),
                k if as_adopt => {
                    if panicking {
                        Ok(R::H(h.create_node_as(d, adopt_as(k))))
                    } else {
                        h.try_create_node_as(d, adopt_as(k)).map(R::H)
                    }
                }
                0 => Ok(R::H(h.create_as_first_child(d))),
                1 => Ok(R::H(h.create_as_last_child(d))),
                2 if panicking => Ok(R::H(h.create_as_prev_sibling(d))),
                2 => h.try_create_as_prev_sibling(d).map(R::H),
                _ if panicking => Ok(R::H(h.create_as_next_sibling(d))),
                _ => h.try_create_as_next_sibling(d).map(R::H),
            },
            EdV::P(x, g) => match kind {
                4 => Ok(R::N(x.create_as_interrupting_parent(g, d))),
                5 => Ok(R::N(x.create_as_interrupting_child(g, d))),
                k if as_adopt => {
                    if panicking {
                        Ok(R::N(x.create_node_as(g, d, adopt_as(k))))
                    } else {
                        x.try_create_node_as(g, d, adopt_as(k)).map(R::N)
                    }
                }
                0 => Ok(R::N(x.create_as_first_child(g, d))),
                1 => Ok(R::N(x.create_as_last_child(g, d))),
                2 if panicking => Ok(R::N(x.create_as_prev_sibling(g, d))),
                2 => x.try_create_as_prev_sibling(g, d).map(R::N),
                _ if panicking => Ok(R::N(x.create_as_next_sibling(g, d))),
                _ => x.try_create_as_next_sibling(g, d).map(R::N),
            },
        });
        match res {
            Err(p) => {
                if !(bad && panicking) {
                    fail(op | if bad { C04 } else { 0 } | C01 | self.bt(), format!("{what}: {p}"));
                }
            }
            Ok(r) => {
                check!(op | C04, !(bad && panicking), "{what}: should have panicked");
                let (ok, code) = match r {
                    Ok(x) => (Some(x), Ok(())),
                    Err(e) => (None, Err(e)),
                };
                self.expect_result(&what, op, code, &[if bad { E4::NoParent } else { E4::Ok }]);
                if let Some(x) = ok {
                    let plain = match &x {
                        R::N(x) => x.clone(),
                        R::H(h) => h.plain(),
                    };
                    self.weak.push(plain.downgrade());
                    match plain.try_borrow_data() {
                        Ok(d) => check!(
                            op,
                            d.id == did && d.val == v,
                            "{what}: returned node has datum #{} instead of #{did}",
                            d.id
                        ),
                        Err(_) => fail(op | C18, format!("{what}: data of the new node is borrowed")),
                    };
                    drop(plain);
                    if keep > 0 {
                        match x {
                            R::H(h) if keep == 1 => self.push(S::H(h), new),
                            R::H(h) => self.push(S::N(h.into()), new),
                            R::N(x) => self.push(S::N(x), new),
                        }
                    } else {
                        drop(x);
                    }
                }
            }
        }
        drop(e);
        self.end(post, op | if bad { C04 } else { 0 });
    }

    fn note_rejected(&mut self) {
        if self.prof.own & C04 != 0 {
            nontrivial();
        }
    }

    /// A destination for inserting something.
    fn pick_dest(&mut self, src: &mut Src, n: usize) -> Option<Pos> {
        let mode = src.draw(10);
        let kind = src.draw(4);
        let invalid = src.chance(self.prof.invalid, 100);
        if invalid {
            // Near-certainly invalid: inside the subtree, or beside a root.
            return match src.draw(3) {
                0 => Some(Pos::make(kind, self.m.root_of(n))),
                1 => {
                    let s = self.m.subtree(n);
                    Some(Pos::make(kind, *src.pick(&s)))
                }
                _ => {
                    let a = self.pick_editable(src)?;
                    Some(Pos::make(2 + kind % 2, self.m.root_of(a)))
                }
            };
        }
        let a = match mode {
            // Neighbourhood of the node: parent, siblings, own place.
            0 | 1 => match self.m.nodes[n].parent {
                Some(p) => {
                    let mut c = self.m.nodes[p].children.clone();
                    c.push(p);
                    *src.pick(&c)
                }
                None => self.pick_editable(src)?,
            },
            // Same tree.
            2..=5 => {
                let c = self.m.subtree(self.m.root_of(n));
                *src.pick(&c)
            }
            // Another tree.
            6..=8 => {
                let t = self.m.nodes[n].tree;
                let c: Vec<usize> = self
                    .m
                    .alive_nodes()
                    .into_iter()
                    .filter(|x| {
                        self.m.nodes[*x].tree != t && self.m.frozen(self.m.nodes[*x].tree) == 0
                    })
                    .collect();
                if c.is_empty() {
                    self.pick_editable(src)?
                } else {
                    *src.pick(&c)
                }
            }
            _ => self.pick_editable(src)?,
        };
        Some(Pos::make(kind, a))
    }

    fn op_move(&mut self, src: &mut Src) {
        let Some(mut n) = self.pick_editable(src) else {
            return;
        };
        if src.chance(1, 12) {
            n = self.m.root_of(n);
        }
        let Some(pos) = self.pick_dest(src, n) else {
            return;
        };
        if !self.m.nodes[n].alive || !self.m.nodes[pos.anchor()].alive {
            return;
        }
        if self.m.frozen(self.m.nodes[pos.anchor()].tree) > 0
            || self.m.frozen(self.m.nodes[n].tree) > 0
        {
            return;
        }
        let panicking = src.chance(1, 3);
        let a = pos.anchor();
        let (st, dt) = (self.m.nodes[n].tree, self.m.nodes[a].tree);
        let same = st == dt;
        let parent = if pos.is_sibling() {
            self.m.nodes[a].parent
        } else {
            Some(a)
        };
        let want: Vec<E4> = match parent {
            None if same && a == n => vec![E4::NoParent, E4::Loop],
            None => vec![E4::NoParent],
            Some(p) if same && pos.is_sibling() && a == n => {
                let _ = p;
                vec![E4::Ok]
            }
            Some(p) if same && self.m.in_subtree(p, n) => vec![E4::Loop],
            Some(_) => vec![E4::Ok],
        };
        let bad = !want.contains(&E4::Ok);
        let mut post = self.m.clone();
        let whole = !same && self.m.is_root(n) && !bad;
        // Handles of the tree that loses its root: dropped before or (harmlessly) after the move.
        let late = src.chance(1, 2);
        let mut zombies = Vec::new();
        if whole {
            let mut i = 0;
            while i < self.slots.len() {
                if matches!(self.slots[i].s, S::T(_)) && self.slots[i].id == st {
                    let s = self.slots.remove(i);
                    zombies.push(s);
                } else {
                    i += 1;
                }
            }
            post.trees[st].refs = 0;
        }
        if !bad {
            post.mv(n, pos);
        }
        let e = self.sel_ed(src, n);
        let hr = self.sel_hot(src, a);
        if whole && !late {
            zombies.clear();
        }
        post.settle();
        let what = format!(
            "move n{n} (t{st}) to {pos:?} (t{dt}) through {} (panicking {panicking})",
            Self::ed_name(&e)
        );
        log(|| format!("{what}, expected {want:?}"));
        let hot_inside = self.m.subtree(n).iter().any(|x| self.m.nodes[*x].h > 0);
        match (bad, same, whole) {
            (true, _, _) => class("rejected move"),
            (_, true, _) => class("move in tree"),
            (_, _, true) => class("move of a whole tree"),
            _ => class("move across trees"),
        }
        if hot_inside && !same && !bad {
            class("move of hot subtree across trees");
            if self.prof.own & C09 != 0 {
                nontrivial();
            }
        }
        if !bad && self.prof.own & (C03 | C10) != 0 {
            nontrivial();
        }
        if bad {
            self.note_rejected();
        }
        finger(3000 + (usize::from(bad) * 8 + usize::from(same) * 4 + usize::from(whole) * 2) as u64);
        finger((n * 64 + a) as u64);
        let op = C03;
        let kind = match pos {
            Pos::First(_) => 0,
            Pos::Last(_) => 1,
            Pos::Prev(_) => 2,
            Pos::Next(_) => 3,
        };
        self.begin(
            op | C01 | C10 | if bad { C04 } else { 0 } | if hot_inside { C09 } else { 0 },
            &post,
        );
        let res: Result<Result<(), HierarchyError>, String> = may_panic(|| {
            let dest = insert_as(kind, self.hr(&hr));
            match self.ed(&e) {
                EdV::H(h) if panicking => {
                    h.detach_insert_subtree(dest);
                    Ok(())
                }
                EdV::H(h) => h.try_detach_insert_subtree(dest),
                EdV::P(x, g) if panicking => {
                    x.detach_insert_subtree(g, dest);
                    Ok(())
                }
                EdV::P(x, g) => x.try_detach_insert_subtree(g, dest),
            }
        });
        match res {
            Err(p) => {
                if !(bad && panicking) {
                    fail(
                        op | C01 | if bad { C04 } else { 0 } | if hot_inside { C09 } else { 0 } | self.bt(),
                        format!("{what}: {p}; model {}", self.m.show_all()),
                    );
                }
            }
            Ok(r) => {
                check!(op | C04, !(bad && panicking), "{what}: should have panicked");
                self.expect_result(&what, op, r, &want);
            }
        }
        drop(zombies);
        drop(e);
        drop(hr);
        self.end(post, op | if bad { C04 } else { 0 } | if hot_inside { C09 } else { 0 });
    }

    fn op_detach(&mut self, src: &mut Src) {
        let Some(n) = self.pick_editable(src) else {
            return;
        };
        let e = self.sel_ed(src, n);
        let mut post = self.m.clone();
        post.detach(n);
        post.settle();
        log(|| format!("detach n{n} through {}", Self::ed_name(&e)));
        class("detach");
        finger(4000 + n as u64);
        let hot_inside = self.m.subtree(n).iter().any(|x| self.m.nodes[*x].h > 0);
        if self.m.nodes[n].parent.is_some() {
            if self.prof.own & (C03 | C10) != 0 || (hot_inside && self.prof.own & C09 != 0) {
                nontrivial();
            }
        }
        let ht = if hot_inside { C09 } else { 0 };
        self.begin(C03 | C01 | C10 | ht, &post);
        match self.ed(&e) {
            EdV::H(h) => h.detach_subtree(),
            EdV::P(x, g) => x.detach_subtree(g),
        }
        drop(e);
        self.end(post, C03 | ht);
    }

    fn op_replace(&mut self, src: &mut Src) {
        let Some(mut n) = self.pick_editable(src) else {
            return;
        };
        if src.chance(self.prof.invalid + 10, 100) {
            n = self.m.root_of(n);
        }
        let panicking = src.chance(1, 3);
        let want = if self.m.is_root(n) {
            match self.m.nodes[n].children.len() {
                0 => E4::Empty,
                1 => E4::Ok,
                _ => E4::NoParent,
            }
        } else {
            E4::Ok
        };
        let bad = want != E4::Ok;
        let e = self.sel_ed(src, n);
        let mut post = self.m.clone();
        if !bad {
            post.replace_with_children(n);
        }
        post.settle();
        let what = format!(
            "replace n{n} with its children through {} (panicking {panicking})",
            Self::ed_name(&e)
        );
        log(|| what.clone());
        class(if bad {
            "rejected replace"
        } else if self.m.is_root(n) {
            "replace root with its child"
        } else {
            "replace with children"
        });
        if bad {
            self.note_rejected();
        } else if self.prof.own & (C03 | C10) != 0 || (self.m.nodes[n].h > 0 && self.prof.own & C09 != 0) {
            nontrivial();
        }
        finger(5000 + n as u64 * 2 + u64::from(bad));
        let ht = if self.m.nodes[n].h > 0 { C09 } else { 0 };
        self.begin(C03 | C01 | C10 | ht | if bad { C04 } else { 0 }, &post);
        let res = may_panic(|| match self.ed(&e) {
            EdV::H(h) if panicking => {
                h.replace_with_children();
                Ok(())
            }
            EdV::H(h) => h.try_replace_with_children(),
            EdV::P(x, g) if panicking => {
                x.replace_with_children(g);
                Ok(())
            }
            EdV::P(x, g) => x.try_replace_with_children(g),
        });
        match res {
            Err(p) => {
                if !(bad && panicking) {
                    fail(
                        C03 | C01 | ht | if bad { C04 } else { 0 } | self.bt(),
                        format!("{what}: {p}; model {}", self.m.show_all()),
                    );
                }
            }
            Ok(r) => {
                check!(C03 | C04, !(bad && panicking), "{what}: should have panicked");
                self.expect_result(&what, C03, r, &[want]);
            }
        }
        drop(e);
        self.end(post, C03 | ht | if bad { C04 } else { 0 });
    }

    /// Reads the data ids of a freshly cloned real subtree into the model, checking its shape.
    fn adopt_clone(&mut self, post: &mut Model, top: usize, real: &Node<D>, origin: &HashMap<usize, usize>, what: &str) {
        let mut st = vec![(top, real.clone())];
        while post.nodes.len() > self.weak.len() {
            self.weak.push(real.downgrade());
        }
        while let Some((n, x)) = st.pop() {
            self.weak[n] = x.downgrade();
            match x.try_borrow_data() {
                Ok(d) => {
                    check!(
                        C16,
                        d.val == post.nodes[n].val,
                        "{what}: datum of the copy n{n} is {} instead of {}",
                        d.val,
                        post.nodes[n].val
                    );
                    let o = post.nodes[origin[&n]].did;
                    check!(
                        C16,
                        d.id != o,
                        "{what}: the copy n{n} shares the datum of its source"
                    );
                    post.nodes[n].did = d.id;
                }
                Err(_) => fail(C16, format!("{what}: data of the copy n{n} are borrowed")),
            }
            let mut c = x.first_child();
            let mut k = 0;
            let ch = post.nodes[n].children.clone();
            while let Some(y) = c {
                check!(
                    C16,
                    k < ch.len(),
                    "{what}: the copy n{n} has more than {} children",
                    ch.len()
                );
                c = y.next_sibling();
                st.push((ch[k], y));
                k += 1;
            }
            check!(
                C16,
                k == ch.len(),
                "{what}: the copy n{n} has {k} children instead of {}",
                ch.len()
            );
        }
    }

    fn op_clone_insert(&mut self, src: &mut Src) {
        let Some(a) = self.pick_editable(src) else {
            return;
        };
        let kind = src.draw(4);
        let invalid = src.chance(self.prof.invalid, 100);
        let a = if invalid && src.chance(1, 2) {
            self.m.root_of(a)
        } else {
            a
        };
        // Source: any live node; often an ancestor of the destination.
        let n = match src.draw(4) {
            0 => self.m.root_of(a),
            1 => {
                let mut c = vec![a];
                let mut x = a;
                while let Some(p) = self.m.nodes[x].parent {
                    c.push(p);
                    x = p;
                }
                *src.pick(&c)
            }
            _ => self.pick_node(src),
        };
        if self.m.subtree(n).len() > 60 {
            return;
        }
        let pos = Pos::make(kind, a);
        let panicking = src.chance(1, 3);
        let borrowed = self.m.subtree(n).iter().any(|x| self.m.nodes[*x].xb);
        let noparent = pos.is_sibling() && self.m.is_root(a);
        let mut want = Vec::new();
        if borrowed {
            want.push(E4::Borrow);
        }
        if noparent {
            want.push(E4::NoParent);
        }
        if want.is_empty() {
            want.push(E4::Ok);
        }
        let bad = !want.contains(&E4::Ok);
        let mut post = self.m.clone();
        let mut new = usize::MAX;
        let mut origin = HashMap::new();
        let keep = src.draw(3);
        if !bad {
            let order = self.m.subtree(n);
            let t = self.m.nodes[a].tree;
            new = post.copy_subtree(n, t);
            for (c, o) in post.subtree(new).iter().zip(order) {
                origin.insert(*c, o);
            }
            post.insert(new, pos);
            match keep {
                0 => {}
                1 => post.nodes[new].h += 1,
                _ => post.nodes[new].n += 1,
            }
        }
        // Source handle.
        let fr: Vec<usize> = (0..self.slots.len())
            .filter(|i| self.slots[*i].id == n && matches!(self.slots[*i].s, S::F(_) | S::H(_)))
            .collect();
        let sref = if !fr.is_empty() && !src.chance(1, 3) {
            Err(*src.pick(&fr))
        } else {
            Ok(self.sel_node(src, n))
        };
        let hr = self.sel_hot(src, a);
        post.settle();
        let what = format!("clone n{n} into {pos:?} (panicking {panicking})");
        log(|| format!("{what}, expected {want:?} -> n{new}"));
        let inside = self.m.in_subtree(a, n);
        class(if bad {
            "rejected clone-insert"
        } else if inside {
            "clone into itself"
        } else {
            "clone-insert"
        });
        if bad {
            self.note_rejected();
        }
        if self.prof.own & C16 != 0 && (bad || self.m.subtree(n).len() > 1) {
            nontrivial();
        }
        finger(6000 + (kind * 4 + usize::from(bad) * 2 + usize::from(inside)) as u64);
        finger((n * 64 + a) as u64);
        let tags = C16 | C01 | if bad { C04 } else { 0 };
        self.begin(tags, &post);
        if self.prof.calls {
            // The destination is a hot handle.
            cb::locks(self.m.nodes[a].tree, 1, 0);
        }
        refuel(100_000);
        let res: Result<Result<HotNode<D>, HierarchyError>, String> = may_panic(|| {
            let dest = insert_as(kind, self.hr(&hr));
            match &sref {
                Ok(r) => {
                    let x = self.nr(r);
                    if panicking {
                        Ok(x.clone_insert_subtree(dest))
                    } else {
                        x.try_clone_insert_subtree(dest)
                    }
                }
                Err(i) => match &self.slots[*i].s {
                    S::F(x) => {
                        if panicking {
                            x.try_clone_insert_subtree(dest).map_err(|e| panic!("{e}"))
                        } else {
                            x.try_clone_insert_subtree(dest)
                        }
                    }
                    S::H(x) => {
                        if panicking {
                            Ok(x.clone_insert_subtree(dest))
                        } else {
                            x.try_clone_insert_subtree(dest)
                        }
                    }
                    _ => unreachable!(),
                },
            }
        });
        refuel(2_000_000);
        match res {
            Err(p) => {
                if !(bad && panicking) {
                    fail(tags | self.bt(), format!("{what}: {p}; model {}", self.m.show_all()));
                }
            }
            Ok(r) => {
                check!(tags | C04, !(bad && panicking), "{what}: should have panicked");
                let (h, r) = match r {
                    Ok(h) => (Some(h), Ok(())),
                    Err(e) => (None, Err(e)),
                };
                self.expect_result(&what, C16, r, &want);
                if let Some(h) = h {
                    let p = h.plain();
                    self.adopt_clone(&mut post, new, &p, &origin, &what);
                    drop(p);
                    match keep {
                        0 => drop(h),
                        1 => self.push(S::H(h), new),
                        _ => self.push(S::N(h.into()), new),
                    }
                }
            }
        }
        drop(sref);
        drop(hr);
        self.end(post, C16 | if bad { C04 } else { 0 });
    }

    fn op_clone(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        let whole = src.chance(1, 3);
        let n = if whole { self.m.root_of(n) } else { n };
        if self.m.subtree(n).len() > 60 {
            return;
        }
        let panicking = src.chance(1, 3);
        let borrowed = self.m.subtree(n).iter().any(|x| self.m.nodes[*x].xb);
        let mut post = self.m.clone();
        let mut new = usize::MAX;
        let mut origin = HashMap::new();
        let keep = src.draw(3);
        let mut tid = usize::MAX;
        if !borrowed {
            let order = self.m.subtree(n);
            new = post.copy_subtree(n, 0);
            tid = post.make_tree(new);
            for (c, o) in post.subtree(new).iter().zip(order) {
                origin.insert(*c, o);
            }
            // The result is held until its data ids are known, then kept or dropped.
            if keep == 1 && whole {
                post.trees[tid].refs += 1;
            } else {
                post.nodes[new].n += 1;
            }
        }
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| self.slots[*i].id == n && matches!(self.slots[*i].s, S::F(_) | S::H(_)))
            .collect();
        let sref = if !c.is_empty() && !src.chance(1, 3) {
            Err(*src.pick(&c))
        } else {
            Ok(self.sel_node(src, n))
        };
        post.settle();
        let what = format!("clone_subtree of n{n} (whole tree {whole}, panicking {panicking})");
        log(|| format!("{what} -> n{new} t{tid}"));
        class(if borrowed { "rejected clone" } else { "clone" });
        if borrowed {
            self.note_rejected();
        }
        if self.prof.own & C16 != 0 && (borrowed || self.m.subtree(n).len() > 1) {
            nontrivial();
        }
        finger(6500 + n as u64 * 2 + u64::from(borrowed));
        let tags = C16 | C01 | if borrowed { C04 } else { 0 };
        self.begin(tags, &post);
        if self.prof.calls {
            cb::locks(self.m.nodes[n].tree, 0, 0);
        }
        refuel(100_000);
        enum R {
            N(Node<D>),
            T(Tree<D>),
        }
        let res: Result<Option<R>, String> = may_panic(|| match &sref {
            Ok(r) => {
                let x = self.nr(r);
                if whole {
                    let t = x.tree();
                    if panicking {
                        Some(R::T(t.clone_tree()))
                    } else {
                        t.try_clone_tree().ok().map(R::T)
                    }
                } else if panicking {
                    Some(R::N(x.clone_subtree()))
                } else {
                    x.try_clone_subtree().ok().map(R::N)
                }
            }
            Err(i) => match &self.slots[*i].s {
                S::F(x) if panicking => Some(R::N(x.clone_subtree())),
                S::F(x) => x.try_clone_subtree().ok().map(R::N),
                S::H(x) if panicking => Some(R::N(x.clone_subtree())),
                S::H(x) => x.try_clone_subtree().ok().map(R::N),
                _ => unreachable!(),
            },
        });
        refuel(2_000_000);
        match res {
            Err(p) => {
                if !(borrowed && panicking) {
                    fail(tags | self.bt(), format!("{what}: {p}"));
                }
            }
            Ok(r) => {
                check!(
                    tags,
                    !(borrowed && panicking),
                    "{what}: should have panicked"
                );
                check!(
                    tags,
                    r.is_some() != borrowed,
                    "{what}: {} though exclusive borrow in the subtree is {borrowed}",
                    if r.is_some() { "succeeded" } else { "failed" }
                );
                if let Some(r) = r {
                    let real = match &r {
                        R::N(x) => x.clone(),
                        R::T(t) => t.root(),
                    };
                    self.adopt_clone(&mut post, new, &real, &origin, &what);
                    drop(real);
                    match r {
                        R::T(t) if keep == 1 && whole => self.push(S::T(t), tid),
                        R::T(t) => {
                            let x = t.root();
                            self.push(S::N(x), new)
                        }
                        R::N(x) => {
                            if keep == 1 && whole {
                                let t = x.tree();
                                self.push(S::T(t), tid)
                            } else {
                                self.push(S::N(x), new)
                            }
                        }
                    }
                }
            }
        }
        drop(sref);
        self.end(post, C16 | if borrowed { C04 } else { 0 });
        if keep == 0 && !borrowed {
            self.light();
            let i = self.slots.len() - 1;
            self.drop_slot(i);
        }
    }

    // ------------------------------------------------------------------------- handle operations

    fn op_acquire(&mut self, src: &mut Src) {
        if self.slots.len() > self.prof.max_slots + 4 {
            return self.op_drop(src);
        }
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        let kind = src.weighted(&[6, 6, 4, 4, 4, 3]);
        let from = src.draw(3);
        let mut post = self.m.clone();
        finger(7000 + (kind * 4 + from) as u64);
        let (fro, hot) = (self.m.frozen(t), self.m.hot(t));
        if self.prof.own & C08 != 0 && (fro > 0 || hot > 0) && kind != 0 && kind != 3 {
            nontrivial();
        }
        match kind {
            0 => {
                post.nodes[n].n += 1;
                log(|| format!("new plain handle of n{n} (by {from})"));
                self.begin(C05 | C01, &post);
                let x = match (from, self.m.nodes[n].parent, self.slots.iter().find(|s| s.id == n && matches!(s.s, S::N(_)))) {
                    (1, _, Some(s)) => match &s.s {
                        S::N(x) => x.clone(),
                        _ => unreachable!(),
                    },
                    (2, Some(p), _) => {
                        // Through navigation from the parent.
                        let p = self.temp(p);
                        let i = self.m.index(n);
                        let mut c = p.first_child();
                        for _ in 0..i {
                            c = c.and_then(|c| c.next_sibling());
                        }
                        match c {
                            Some(c) => c,
                            None => fail(C01 | self.since, format!("n{n} not found under its parent")),
                        }
                    }
                    _ => self.temp(n),
                };
                self.push(S::N(x), n);
            }
            1 | 2 => {
                let is_hot = kind == 1;
                let ok = if is_hot { fro == 0 } else { hot == 0 };
                if ok {
                    if is_hot {
                        post.nodes[n].h += 1;
                    } else {
                        post.nodes[n].f += 1;
                    }
                }
                log(|| format!("new {} handle of n{n} (expected {ok})", if is_hot { "hot" } else { "frozen" }));
                if !ok {
                    class("refused lock");
                }
                let exist: Vec<usize> = (0..self.slots.len())
                    .filter(|i| {
                        self.slots[*i].id == n
                            && match self.slots[*i].s {
                                S::H(_) => is_hot,
                                S::F(_) => !is_hot,
                                _ => false,
                            }
                    })
                    .collect();
                self.begin(C08 | C05, &post);
                if from == 1 && !exist.is_empty() {
                    let s = match &self.slots[exist[0]].s {
                        S::H(x) => S::H(x.clone()),
                        S::F(x) => S::F(x.clone()),
                        _ => unreachable!(),
                    };
                    self.push(s, n);
                } else if from == 2 && ok {
                    let x = self.temp(n);
                    let s = if is_hot {
                        let g = x.tree().grant_hierarchy_edit();
                        check!(C08 | self.since, g.is_ok(), "grant refused on t{t}");
                        S::H(x.bundle_hierarchy_edit_grant(&g.unwrap()))
                    } else {
                        let g = x.tree().prohibit_hierarchy_edit();
                        check!(C08 | self.since, g.is_ok(), "prohibition refused on t{t}");
                        S::F(x.bundle_hierarchy_edit_prohibition(&g.unwrap()))
                    };
                    self.push(s, n);
                } else {
                    let x = self.temp(n);
                    let s = if is_hot {
                        x.bundle_new_hierarchy_edit_grant().ok().map(S::H)
                    } else {
                        x.bundle_new_hierarchy_edit_prohibition().ok().map(S::F)
                    };
                    check!(
                        C08 | self.since & (C09 | C03 | C04),
                        s.is_some() == ok,
                        "{} handle of n{n}: {}, though t{t} has {hot} grant holders and {fro} prohibition holders",
                        if is_hot { "hot" } else { "frozen" },
                        if s.is_some() { "given" } else { "refused" }
                    );
                    if let Some(s) = s {
                        self.push(s, n);
                    }
                }
            }
            3 => {
                post.trees[t].refs += 1;
                log(|| format!("new tree handle of t{t} by n{n}"));
                self.begin(C05 | C10, &post);
                let x = self.temp(n);
                let tr = match (from, &self.tweak[t]) {
                    (1, Some(w)) => match w.upgrade() {
                        Some(x) => x,
                        None => fail(C06, format!("weak reference to live t{t} does not upgrade")),
                    },
                    _ => x.tree(),
                };
                drop(x);
                self.push(S::T(tr), t);
            }
            _ => {
                let is_g = kind == 4;
                let ok = if is_g { fro == 0 } else { hot == 0 };
                if ok {
                    if is_g {
                        post.trees[t].g += 1;
                    } else {
                        post.trees[t].p += 1;
                    }
                }
                log(|| format!("new {} of t{t} by n{n} (expected {ok})", if is_g { "grant" } else { "prohibition" }));
                if !ok {
                    class("refused lock");
                }
                self.begin(C08, &post);
                let exist: Vec<usize> = (0..self.slots.len())
                    .filter(|i| match self.slots[*i].s {
                        S::G(_) => is_g && self.slots[*i].id == t,
                        S::P(_) => !is_g && self.slots[*i].id == t,
                        S::H(_) => is_g && self.slots[*i].id == n,
                        S::F(_) => !is_g && self.slots[*i].id == n,
                        _ => false,
                    })
                    .collect();
                let s = if from > 0 && !exist.is_empty() {
                    // From an existing holder.
                    let i = exist[(from - 1) % exist.len()];
                    match &self.slots[i].s {
                        S::G(g) if from == 1 => Some(S::G(g.clone())),
                        S::G(g) => g.try_clone().ok().map(S::G),
                        S::P(g) => g.try_clone().ok().map(S::P),
                        S::H(h) => Some(S::G(h.extract_hierarchy_edit_grant())),
                        S::F(h) => Some(S::P(h.extract_hierarchy_edit_prohibition())),
                        _ => unreachable!(),
                    }
                } else {
                    let tree = self.temp(n).tree();
                    if is_g {
                        tree.grant_hierarchy_edit().ok().map(S::G)
                    } else {
                        tree.prohibit_hierarchy_edit().ok().map(S::P)
                    }
                };
                check!(
                    C08 | self.since & (C09 | C03 | C04),
                    s.is_some() == ok,
                    "{} of t{t}: {}, though it has {hot} grant holders and {fro} prohibition holders",
                    if is_g { "grant" } else { "prohibition" },
                    if s.is_some() { "given" } else { "refused" }
                );
                if let Some(s) = s {
                    self.push(s, t);
                }
            }
        }
        self.end(post, 0);
    }

    fn op_convert(&mut self, src: &mut Src) {
        if self.slots.is_empty() {
            return;
        }
        let i = src.draw(self.slots.len());
        let how = src.draw(4);
        let id = self.slots[i].id;
        let mut post = self.m.clone();
        finger(8000 + how as u64);
        match &self.slots[i].s {
            S::N(_) => {
                let t = self.m.nodes[id].tree;
                let is_hot = how % 2 == 0;
                let ok = if is_hot {
                    self.m.frozen(t) == 0
                } else {
                    self.m.hot(t) == 0
                };
                post.nodes[id].n -= 1;
                if ok {
                    if is_hot {
                        post.nodes[id].h += 1;
                    } else {
                        post.nodes[id].f += 1;
                    }
                }
                if self.prof.own & C08 != 0 {
                    nontrivial();
                }
                post.settle();
                log(|| format!("convert plain n{id} to {} (expected {ok})", if is_hot { "hot" } else { "frozen" }));
                self.begin(C08 | C05, &post);
                let s = self.slots.remove(i);
                let S::N(x) = s.s else { unreachable!() };
                let r = if is_hot {
                    x.bundle_new_hierarchy_edit_grant().ok().map(S::H)
                } else {
                    x.bundle_new_hierarchy_edit_prohibition().ok().map(S::F)
                };
                check!(
                    C08 | self.since & (C09 | C03 | C04),
                    r.is_some() == ok,
                    "conversion of n{id} to a {} handle: wrong answer (expected {ok})",
                    if is_hot { "hot" } else { "frozen" }
                );
                if let Some(r) = r {
                    self.push(r, id);
                }
            }
            S::H(_) => {
                post.nodes[id].h -= 1;
                let take_tree = how == 3;
                if take_tree {
                    post.trees[self.m.nodes[id].tree].refs += 1;
                } else {
                    post.nodes[id].n += 1;
                }
                post.settle();
                log(|| format!("convert hot n{id} ({how})"));
                self.begin(C08 | C05, &post);
                let s = self.slots.remove(i);
                let S::H(x) = s.s else { unreachable!() };
                if take_tree {
                    let t = x.tree();
                    drop(x);
                    self.push(S::T(t), self.m.nodes[id].tree);
                } else if how == 0 {
                    let p = x.plain();
                    drop(x);
                    self.push(S::N(p), id);
                } else {
                    self.push(S::N(x.into()), id);
                }
            }
            S::F(_) => {
                post.nodes[id].f -= 1;
                let take_tree = how == 3;
                if take_tree {
                    post.trees[self.m.nodes[id].tree].refs += 1;
                } else {
                    post.nodes[id].n += 1;
                }
                post.settle();
                log(|| format!("convert frozen n{id} ({how})"));
                self.begin(C08 | C05, &post);
                let s = self.slots.remove(i);
                let S::F(x) = s.s else { unreachable!() };
                if take_tree {
                    let t = x.tree();
                    drop(x);
                    self.push(S::T(t), self.m.nodes[id].tree);
                } else if how == 0 {
                    let p = x.plain();
                    drop(x);
                    self.push(S::N(p), id);
                } else {
                    self.push(S::N(x.into()), id);
                }
            }
            S::T(_) => {
                // A tree handle becomes a handle of the root (or a second tree handle).
                let r = self.m.trees[id].root;
                post.trees[id].refs -= 1;
                if how == 0 {
                    post.trees[id].refs += 1;
                } else {
                    post.nodes[r].n += 1;
                }
                post.settle();
                log(|| format!("convert tree handle of t{id} ({how})"));
                self.begin(C10 | C05, &post);
                let s = self.slots.remove(i);
                let S::T(x) = s.s else { unreachable!() };
                if how == 0 {
                    let y = x.clone();
                    drop(x);
                    self.push(S::T(y), id);
                } else {
                    let y = x.root();
                    drop(x);
                    self.push(S::N(y), r);
                }
            }
            S::G(_) | S::P(_) => {
                // A token is copied, also when its tree is gone.
                let copies = 1 + usize::from(how >= 2);
                let is_g = matches!(self.slots[i].s, S::G(_));
                if is_g {
                    post.trees[id].g += copies - 1;
                } else {
                    post.trees[id].p += copies - 1;
                }
                log(|| format!("copy token of t{id} ({how})"));
                if !self.m.trees[id].alive {
                    class("copy of a token of a dead tree");
                }
                self.begin(C08, &post);
                let s = self.slots.remove(i);
                let c = match &s.s {
                    S::G(g) if how % 2 == 0 => Some(S::G(g.clone())),
                    S::G(g) => g.try_clone().ok().map(S::G),
                    S::P(g) => g.try_clone().ok().map(S::P),
                    _ => unreachable!(),
                };
                check!(C08 | self.since & (C09 | C03 | C04), c.is_some(), "copying a token of t{id} failed");
                if copies == 2 {
                    self.push(s.s, id);
                } else {
                    drop(s);
                }
                self.push(c.unwrap(), id);
            }
            S::I(..) | S::B(_) | S::M(_) => return,
        }
        self.end(post, 0);
    }

    fn forget_slot(&self, post: &mut Model, s: &Slot) {
        match &s.s {
            S::N(_) => post.nodes[s.id].n -= 1,
            S::H(_) => post.nodes[s.id].h -= 1,
            S::F(_) => post.nodes[s.id].f -= 1,
            S::T(_) => post.trees[s.id].refs -= 1,
            S::G(_) => post.trees[s.id].g -= 1,
            S::P(_) => post.trees[s.id].p -= 1,
            S::M(v) => match &v[0] {
                S::N(_) => post.nodes[s.id].n -= v.len(),
                S::H(_) => post.nodes[s.id].h -= v.len(),
                S::F(_) => post.nodes[s.id].f -= v.len(),
                S::G(_) => post.trees[s.id].g -= v.len(),
                _ => post.trees[s.id].p -= v.len(),
            },
            S::B(b) => {
                post.nodes[s.id].n -= 1;
                if b.sh.is_some() {
                    post.nodes[s.id].sh -= 1;
                } else {
                    post.nodes[s.id].xb = false;
                }
            }
            S::I(..) => {
                for x in &s.plain {
                    post.nodes[*x].n -= 1;
                }
                for x in &s.frozen {
                    post.nodes[*x].f -= 1;
                }
            }
        }
    }

    fn drop_slot(&mut self, i: usize) {
        self.drop_slot_with(i, None);
    }

    fn drop_slot_with(&mut self, i: usize, bomb: Option<u32>) {
        let mut post = self.m.clone();
        let s = self.slots.remove(i);
        self.forget_slot(&mut post, &s);
        let dead = post.settle();
        let name = match &s.s {
            S::N(_) => "plain n",
            S::H(_) => "hot n",
            S::F(_) => "frozen n",
            S::T(_) => "tree t",
            S::G(_) => "grant t",
            S::P(_) => "prohibition t",
            S::B(_) => "borrow n",
            S::I(..) => "traverser n",
            S::M(_) => "many handles of ",
        };
        log(|| format!("drop {name}{} (kills {dead:?})", s.id));
        finger(9000 + dead.len() as u64);
        if !dead.is_empty() {
            class("drop of the last handle");
            if self.prof.own & (C05 | C06) != 0 {
                nontrivial();
            }
        } else if matches!(s.s, S::G(_) | S::P(_)) {
            class("drop of a token");
        }
        self.begin(C05 | C08, &post);
        match s.s {
            S::M(v) => self.drop_many(v, s.id, &post),
            // The destructor of one of the data panics: the others are dropped all the same.
            _ if bomb.is_some() => {
                set_drop_bomb(bomb);
                let r = may_panic(|| drop(s));
                set_drop_bomb(None);
                match r {
                    Ok(()) => fail(C05, format!("drop: the destructor of datum #{bomb:?} did not panic")),
                    Err(p) => check!(C05, p.contains(BOMB_MSG), "drop: another panic: {p}"),
                }
            }
            _ => drop(s),
        }
        self.end(post, 0);
    }

    /// Drops the handles one by one; the tree stays alive and locked until the last one is gone.
    fn drop_many(&self, mut v: Vec<S>, id: usize, post: &Model) {
        let (node, grants, tokens) = match &v[0] {
            S::N(_) => (id, None, false),
            S::H(_) => (id, Some(true), false),
            S::F(_) => (id, Some(false), false),
            S::G(_) => (self.m.trees[id].root, Some(true), true),
            _ => (self.m.trees[id].root, Some(false), true),
        };
        // A tree may have lost its root to another one.
        let alive = !tokens || (self.m.nodes[node].alive && self.m.nodes[node].tree == id);
        let live = self.tr.live().len();
        while let Some(x) = v.pop() {
            drop(x);
            if v.is_empty() {
                break;
            }
            if !alive {
                continue;
            }
            let left = v.len();
            let t = C05 | self.since;
            // A weak reference would add a strong one; look at the data first.
            check!(
                t,
                left % 64 != 0 || self.tr.live().len() == live,
                "data dropped with {left} handles of n{node} left"
            );
            match (grants, &v[0]) {
                (None, S::N(x)) => {
                    let p = self.m.nodes[node].parent.is_some();
                    check!(t, x.parent().is_some() == p, "n{node} lost its tree with {left} handles left");
                }
                (Some(g), _) => {
                    let Some(x) = self.weak[node].upgrade() else {
                        fail(t, format!("n{node} is gone with {left} handles left"))
                    };
                    let tree = x.tree();
                    let t = C08 | self.since & (C09 | C03);
                    check!(
                        t,
                        if g {
                            tree.prohibit_hierarchy_edit().is_err()
                        } else {
                            tree.grant_hierarchy_edit().is_err()
                        },
                        "the tree of n{node} is unlocked with {left} of its locks left"
                    );
                    check!(
                        t,
                        if g {
                            tree.grant_hierarchy_edit().is_ok()
                        } else {
                            tree.prohibit_hierarchy_edit().is_ok()
                        },
                        "another lock of the same kind for the tree of n{node} is refused"
                    );
                }
                _ => {}
            }
        }
        let t = self.m.nodes[node].tree;
        if alive && post.nodes[node].alive && grants.is_some() {
            let (hot, fro) = (post.hot(t), post.frozen(t));
            let Some(x) = self.weak[node].upgrade() else {
                fail(C05, format!("n{node} is gone too early"))
            };
            let tree = x.tree();
            check!(
                C08 | self.since & (C09 | C03),
                tree.prohibit_hierarchy_edit().is_ok() == (hot == 0)
                    && tree.grant_hierarchy_edit().is_ok() == (fro == 0),
                "locks of t{t} are wrong after the last of many locks is gone ({hot} grants, {fro} prohibitions)"
            );
        }
    }

    /// Takes many handles of one node, or tokens of one tree, at once.
    fn op_many(&mut self, src: &mut Src) {
        if self.slots.iter().any(|s| matches!(s.s, S::M(_))) {
            return;
        }
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        let (hot, fro) = (self.m.hot(t), self.m.frozen(t));
        let kind = src.draw(5);
        let k = match src.draw(4) {
            0 => 2 + src.draw(30),
            // More than 16 bits count.
            1 if src.chance(1, 50) => 65_530 + src.draw(300),
            _ => 120 + src.draw(480),
        };
        if (matches!(kind, 1 | 3) && fro > 0) || (matches!(kind, 2 | 4) && hot > 0) {
            return;
        }
        let mut post = self.m.clone();
        match kind {
            0 => post.nodes[n].n += k,
            1 => post.nodes[n].h += k,
            2 => post.nodes[n].f += k,
            3 => post.trees[t].g += k,
            _ => post.trees[t].p += k,
        }
        let name = ["plain handles", "hot handles", "frozen handles", "grants", "prohibitions"][kind];
        log(|| format!("{k} {name} of n{n} in t{t}"));
        class("many handles at once");
        finger(13000 + kind as u64);
        let tags = [C05, C08 | C05, C08 | C05, C08, C08][kind];
        self.begin(tags, &post);
        let x = self.temp(n);
        let tree = x.tree();
        let mut v = Vec::new();
        for i in 0..k {
            // New, or a copy of another one.
            let s = match (kind, v.last()) {
                (0, _) => Some(S::N(x.clone())),
                (1, Some(S::H(h))) if i % 3 > 0 => Some(S::H(h.clone())),
                (1, _) => x.clone().bundle_new_hierarchy_edit_grant().ok().map(S::H),
                (2, Some(S::F(h))) if i % 3 > 0 => Some(S::F(h.clone())),
                (2, _) => x.clone().bundle_new_hierarchy_edit_prohibition().ok().map(S::F),
                (3, Some(S::G(g))) if i % 3 > 0 => Some(S::G(g.clone())),
                (3, _) => tree.grant_hierarchy_edit().ok().map(S::G),
                (_, Some(S::P(g))) if i % 3 > 0 => g.try_clone().ok().map(S::P),
                _ => tree.prohibit_hierarchy_edit().ok().map(S::P),
            };
            match s {
                Some(s) => v.push(s),
                None => fail(C08 | self.since & (C09 | C03), format!("number {i} of {k} {name} of n{n} refused")),
            }
        }
        drop((x, tree));
        self.push(S::M(v), if kind < 3 { n } else { t });
        self.end(post, 0);
        if src.chance(1, 2) {
            let i = self.slots.len() - 1;
            self.drop_slot(i);
        }
    }

    /// User code (clone, eq, fmt, an iterator of events) panics inside the library: nothing changes.
    fn op_fault(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        let sub = self.m.subtree(n);
        let kind = src.draw(6);
        let k = 1 + src.draw(sub.len().min(30));
        let how = src.draw(4);
        let all = self.m.subtree(self.m.root_of(n));
        if all.iter().any(|x| self.m.nodes[*x].xb) || all.len() > 60 {
            return;
        }
        let name = ["clone", "clone of the tree", "serialise", "compare", "print", "collect"][kind];
        log(|| format!("{name} n{n}, panic in user code at call {k} ({how})"));
        class("panic in user code");
        finger(14000 + (kind * 64 + k) as u64);
        let post = self.m.clone();
        let old = self.since;
        self.begin(C05 | C16, &post);
        let x = self.temp(n);
        let locked = self.m.hot(self.m.nodes[n].tree) > 0;
        let frozen = self.m.frozen(self.m.nodes[n].tree) > 0;
        let tr = self.tr.clone();
        // With callbacks that use the library, mostly without a panic.
        let calm = self.prof.calls && src.chance(3, 4);
        if self.prof.calls {
            let (h, f) = match (kind, how) {
                (0, 1) if !frozen => (1, 0),
                (0, 2) if !locked => (0, 1),
                _ => (0, 0),
            };
            cb::locks(self.m.nodes[n].tree, h, f);
        }
        set_bomb(if kind == 5 || calm { 0 } else { k as u64 });
        let r = may_panic(|| match kind {
            0 => match how {
                1 if !frozen => match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => drop(h.clone_subtree()),
                    Err(_) => fail(C08 | old, format!("hot handle of n{n} refused")),
                },
                2 if !locked => match x.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(h) => drop(h.clone_subtree()),
                    Err(_) => fail(C08 | old, format!("frozen handle of n{n} refused")),
                },
                3 => drop(x.try_clone_subtree()),
                _ => drop(x.clone_subtree()),
            },
            1 => {
                if how % 2 == 0 {
                    drop(x.tree().clone_tree())
                } else {
                    drop(x.tree().try_clone_tree())
                }
            }
            2 => {
                let v: Result<Vec<_>, _> = x.to_events().collect();
                drop(v);
            }
            3 => {
                let y = self.temp(self.m.root_of(n));
                let _ = x.try_eq(&y);
                let _ = x.try_eq(&x.clone());
                let _ = x.tree() == y.tree();
            }
            4 => {
                let _ = if how % 2 == 0 {
                    format!("{}", x.debug_pretty_print())
                } else {
                    format!("{:?}", x.debug_print_subtree())
                };
            }
            _ => {
                // Half of the events of a small tree.
                let it = (0..k + 1).map(|i| {
                    cb::user_code("an iterator");
                    if i == k && !calm {
                        panic!("{BOMB_MSG}");
                    }
                    if i % 3 == 2 {
                        dendron::serial::Event::Close(1)
                    } else {
                        dendron::serial::Event::Open(tr.make(7))
                    }
                });
                use dendron::serial::TreeBuildError as E;
                match how {
                    0 => drop(it.collect::<Result<Node<D>, E>>()),
                    1 => drop(it.collect::<Result<HotNode<D>, E>>()),
                    2 => drop(it.collect::<Result<Tree<D>, E>>()),
                    _ => {
                        let mut b = dendron::serial::TreeBuilder::new();
                        let _ = b.push_events(it);
                    }
                }
            }
        });
        set_bomb(0);
        drop(x);
        if let Err(p) = r {
            check!(C05 | C16 | old, p.contains(BOMB_MSG), "{name} n{n} with a panic in user code: another panic: {p}");
            class("panic in user code went through");
        }
        self.end(post, 0);
        self.light();
        for y in &sub {
            let mn = &self.m.nodes[*y];
            check!(
                C18 | C16 | old,
                self.temp(*y).try_borrow_data_mut().is_ok() == (mn.sh == 0 && !mn.xb),
                "the borrow state of n{y} is wrong after a panic in user code"
            );
        }
        self.probe_locks(C08 | self.since);
    }

    fn op_drop(&mut self, src: &mut Src) {
        if self.slots.is_empty() {
            return;
        }
        let i = src.draw(self.slots.len());
        if self.prof.own & (C05 | C06 | C23) != 0 && src.chance(1, 5) {
            let mut post = self.m.clone();
            let s = self.slots.remove(i);
            self.forget_slot(&mut post, &s);
            let many = matches!(s.s, S::M(_));
            self.slots.insert(i, s);
            let dead = post.settle();
            let dids: Vec<u32> = (0..self.m.nodes.len())
                .filter(|n| self.m.nodes[*n].alive && !post.nodes[*n].alive)
                .map(|n| self.m.nodes[n].did)
                .collect();
            if !dids.is_empty() && !many {
                let d = *src.pick(&dids);
                log(|| format!("the destructor of datum #{d} will panic ({dead:?} die)"));
                class("panic in a destructor");
                self.drop_slot_with(i, Some(d));
                return;
            }
        }
        self.drop_slot(i);
    }

    /// Drops every handle of one tree, in random order.
    fn op_droptree(&mut self, src: &mut Src) {
        let ts = self.m.alive_trees();
        let t = *src.pick(&ts);
        loop {
            let c: Vec<usize> = (0..self.slots.len())
                .filter(|i| {
                    let s = &self.slots[*i];
                    match &s.s {
                        S::T(_) | S::G(_) | S::P(_) => s.id == t,
                        S::M(v) if matches!(v[0], S::G(_) | S::P(_)) => s.id == t,
                        S::I(..) => s
                            .plain
                            .iter()
                            .chain(&s.frozen)
                            .any(|x| self.m.nodes[*x].tree == t),
                        _ => self.m.nodes[s.id].tree == t,
                    }
                })
                .collect();
            if c.is_empty() {
                break;
            }
            let i = *src.pick(&c);
            self.drop_slot(i);
            self.light();
        }
    }

    /// Leaves exactly one handle on a tree (through one node of it), so that the next edit decides
    /// about the life of the tree.
    fn op_lean(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        let hot = src.chance(1, 2) && self.m.frozen(t) == 0;
        let mut post = self.m.clone();
        if hot {
            post.nodes[n].h += 1;
        } else {
            post.nodes[n].n += 1;
        }
        log(|| format!("single {} handle n{n} for t{t}", if hot { "hot" } else { "plain" }));
        self.begin(C08 | C05, &post);
        let x = self.temp(n);
        let s = if hot {
            match x.bundle_new_hierarchy_edit_grant() {
                Ok(h) => S::H(h),
                Err(_) => fail(C08 | self.since, format!("hot handle of n{n} refused")),
            }
        } else {
            S::N(x)
        };
        self.push(s, n);
        self.end(post, 0);
        let keep = self.slots.len() - 1;
        let mut i = keep;
        while i > 0 {
            i -= 1;
            let s = &self.slots[i];
            let of_tree = match &s.s {
                S::T(_) | S::G(_) | S::P(_) => s.id == t,
                S::M(v) if matches!(v[0], S::G(_) | S::P(_)) => s.id == t,
                S::I(..) => s
                    .plain
                    .iter()
                    .chain(&s.frozen)
                    .any(|x| self.m.nodes[*x].tree == t),
                _ => self.m.nodes[s.id].tree == t,
            };
            if of_tree {
                self.drop_slot(i);
            }
        }
        class("single handle");
    }

    fn op_data(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| {
                self.slots[*i].id == n && matches!(self.slots[*i].s, S::N(_) | S::H(_) | S::F(_))
            })
            .collect();
        let mn = self.m.nodes[n].clone();
        let mode = src.draw(5);
        // Which handle: one that is held, or a temporary frozen or hot one.
        let locked = if mode == 1 { 0 } else { src.draw(4) };
        let v = self.val(src);
        let mut post = self.m.clone();
        let free = !mn.xb && mn.sh == 0;
        log(|| format!("data operation {mode} on n{n} (free {free})"));
        finger(10000 + (mode * 2 + usize::from(free)) as u64);
        if self.prof.own & C18 != 0 {
            nontrivial();
        }
        let replace = mode == 1;
        let newd = if replace { Some(self.tr.make(v)) } else { None };
        let newid = newd.as_ref().map(|d| d.id);
        if free && mode < 2 {
            post.nodes[n].val = v;
            if let Some(i) = newid {
                post.nodes[n].did = i;
                for e in std::mem::take(&mut post.nodes[n].extra) {
                    post.nodes[e].n -= 1;
                }
                post.settle();
            }
        }
        self.begin(C18, &post);
        let tmp = if c.is_empty() { Some(self.temp(n)) } else { None };
        let slot = if c.is_empty() { 0 } else { *src.pick(&c) };
        macro_rules! on {
            ($x:expr) => {{
                let x = $x;
                match mode {
                    0 | 1 => match x.try_borrow_data_mut() {
                        Ok(mut d) => {
                            check!(C18, free, "exclusive borrow of n{n} given while it is borrowed");
                            check!(
                                C18,
                                x.try_borrow_data().is_err() && x.try_borrow_data_mut().is_err(),
                                "n{n} borrowed during an exclusive borrow"
                            );
                            match newd {
                                Some(nd) => *d = nd,
                                None => d.val = v,
                            }
                        }
                        Err(_) => check!(C18, !free, "exclusive borrow of free n{n} refused"),
                    },
                    2 => {
                        let r = may_panic(|| {
                            let d = x.borrow_data();
                            (d.id, d.val)
                        });
                        check!(
                            C18,
                            r.is_ok() == !mn.xb,
                            "borrow_data of n{n}: panic is {} with exclusive borrow {}",
                            r.is_err(),
                            mn.xb
                        );
                        if let Ok(r) = r {
                            check!(C18, r == (mn.did, mn.val), "data of n{n}: {r:?}");
                        }
                    }
                    4 => match x.try_borrow_data() {
                        Ok(d) => {
                            check!(C18, !mn.xb, "shared borrow of n{n} given while it is exclusively borrowed");
                            check!(C18, (d.id, d.val) == (mn.did, mn.val), "data of n{n}: #{}={}", d.id, d.val);
                            // While it is held, readers are welcome, writers are not.
                            check!(C18, x.try_borrow_data().is_ok(), "second shared borrow of n{n} refused");
                            check!(
                                C18,
                                x.try_borrow_data_mut().is_err(),
                                "exclusive borrow of n{n} given during a shared one"
                            );
                        }
                        Err(_) => check!(C18, mn.xb, "shared borrow of n{n} refused"),
                    },
                    _ => {
                        let r = may_panic(|| {
                            let d = x.borrow_data_mut();
                            (d.id, d.val)
                        });
                        check!(
                            C18,
                            r.is_ok() == free,
                            "borrow_data_mut of n{n}: panic is {} with {} shared, exclusive {}",
                            r.is_err(),
                            mn.sh,
                            mn.xb
                        );
                        if let Ok(r) = r {
                            check!(C18, r == (mn.did, mn.val), "data of n{n}: {r:?}");
                        }
                    }
                }
            }};
        }
        let fz = match locked {
            2 => self.temp(n).bundle_new_hierarchy_edit_prohibition().ok(),
            _ => None,
        };
        let hot = match locked {
            3 => self.temp(n).bundle_new_hierarchy_edit_grant().ok(),
            _ => None,
        };
        match (&tmp, self.slots.get(slot).map(|s| &s.s)) {
            _ if fz.is_some() => on!(fz.as_ref().unwrap()),
            _ if hot.is_some() => on!(hot.as_ref().unwrap()),
            (Some(x), _) => on!(x),
            (_, Some(S::N(x))) => on!(x),
            (_, Some(S::H(x))) => on!(x),
            (_, Some(S::F(x))) => on!(x),
            _ => unreachable!(),
        }
        drop((fz, hot));
        drop(tmp);
        self.end(post, C18);
    }

    fn op_borrow(&mut self, src: &mut Src) {
        let held: Vec<usize> = (0..self.slots.len())
            .filter(|i| matches!(self.slots[*i].s, S::B(_)))
            .collect();
        if held.len() > 3 || (!held.is_empty() && src.chance(1, 3)) {
            let i = *src.pick(&held);
            return self.drop_slot(i);
        }
        let n = self.pick_node(src);
        let ex = src.chance(1, 2);
        let mn = &self.m.nodes[n];
        let ok = if ex { !mn.xb && mn.sh == 0 } else { !mn.xb };
        let mut post = self.m.clone();
        if ok {
            post.nodes[n].n += 1;
            if ex {
                post.nodes[n].xb = true;
            } else {
                post.nodes[n].sh += 1;
            }
        }
        log(|| format!("hold {} borrow of n{n} (expected {ok})", if ex { "exclusive" } else { "shared" }));
        class(if ex { "exclusive borrow held" } else { "shared borrow held" });
        finger(11000 + u64::from(ex));
        self.begin(C18, &post);
        let node = Box::new(self.temp(n));
        // The reference outlives this function together with its boxed node (see `Held::drop`).
        let st: &'static Node<D> = unsafe { &*(&*node as *const Node<D>) };
        let mut b = Held {
            sh: None,
            ex: None,
            node: Some(node),
        };
        if ex {
            b.ex = st.try_borrow_data_mut().ok();
        } else {
            b.sh = st.try_borrow_data().ok();
        }
        let got = b.ex.is_some() || b.sh.is_some();
        check!(
            C18,
            got == ok,
            "{} borrow of n{n}: got {got}, expected {ok}",
            if ex { "exclusive" } else { "shared" }
        );
        if got {
            self.push(S::B(b), n);
        } else {
            drop(b);
        }
        self.end(post, 0);
    }

    /// Puts a handle of one node into the datum of another, or takes such handles out again.
    fn op_extra(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        if self.m.nodes[n].xb {
            return;
        }
        let x = self.temp(n);
        let mut post = self.m.clone();
        if !self.m.nodes[n].extra.is_empty() && src.chance(1, 2) {
            for e in std::mem::take(&mut post.nodes[n].extra) {
                post.nodes[e].n -= 1;
            }
            post.settle();
            log(|| format!("clear the handles owned by the datum of n{n}"));
            self.begin(C05 | C18, &post);
            let v = match x.try_borrow_data() {
                Ok(d) => std::mem::take(&mut *d.extra.borrow_mut()),
                Err(_) => fail(C18, format!("shared borrow of n{n} refused")),
            };
            drop(x);
            drop(v);
        } else {
            let c: Vec<usize> = (0..self.slots.len())
                .filter(|i| matches!(self.slots[*i].s, S::N(_)))
                .collect();
            if c.is_empty() {
                return;
            }
            let i = *src.pick(&c);
            let e = self.slots[i].id;
            // Handles owned by a tree about itself (or in a cycle) leak by design: they are not
            // generated, since only user code could release them.
            if self.owns(self.m.nodes[e].tree, self.m.nodes[n].tree) {
                return;
            }
            post.nodes[n].extra.push(e);
            log(|| format!("datum of n{n} takes over the plain handle of n{e}"));
            class("datum owns a handle");
            finger(12000);
            self.begin(C05 | C18, &post);
            let s = self.slots.remove(i);
            let S::N(h) = s.s else { unreachable!() };
            match x.try_borrow_data() {
                Ok(d) => d.extra.borrow_mut().push(h),
                Err(_) => fail(C18, format!("shared borrow of n{n} refused")),
            };
            drop(x);
        }
        self.end(post, 0);
    }

    /// Whether the tree `a` (transitively) owns handles of tree `b`.
    fn owns(&self, a: usize, b: usize) -> bool {
        let mut seen = vec![a];
        let mut i = 0;
        while i < seen.len() {
            if seen[i] == b {
                return true;
            }
            for x in self.m.subtree(self.m.trees[seen[i]].root) {
                for e in &self.m.nodes[x].extra {
                    let t = self.m.nodes[*e].tree;
                    if !seen.contains(&t) {
                        seen.push(t);
                    }
                }
            }
            i += 1;
        }
        false
    }

    fn op_builder(&mut self, src: &mut Src) {
        let Some(n) = self.pick_editable(src) else {
            return;
        };
        let hr = self.sel_hot(src, n);
        let mut post = self.m.clone();
        let mut evs: Vec<(Option<D>, usize)> = Vec::new();
        let mut st = vec![n];
        for _ in 0..src.draw(6) {
            let v = self.val(src);
            let d = self.tr.make(v);
            let new = post.create(Pos::Last(*st.last().unwrap()), d.id, v);
            st.push(new);
            evs.push((Some(d), new));
            let k = src.draw(st.len());
            if k > 0 {
                st.truncate(st.len() - k);
                evs.push((None, k));
            }
        }
        if evs.is_empty() {
            return;
        }
        post.settle();
        log(|| format!("builder adds {} events under n{n}", evs.len()));
        class("builder on existing node");
        finger(13000 + evs.len() as u64);
        self.begin(C15 | C01, &post);
        let h = match &hr {
            HR::Slot(_) => self.hr(&hr).clone(),
            HR::Temp(h) => h.clone(),
        };
        let mut b = TreeBuilder::with_root(h);
        for (d, k) in evs {
            let r = match d {
                Some(d) => b.open(d),
                None => b.close(k),
            };
            check!(C15, r.is_ok(), "builder rejected a well-formed event");
        }
        drop(b);
        drop(hr);
        set_scope(0);
        // New nodes get their weak references by walking down from the model.
        while self.weak.len() < post.nodes.len() {
            let id = self.weak.len();
            let p = post.nodes[id].parent.unwrap();
            let i = post.index(id);
            let x = match self.weak[p].upgrade() {
                Some(x) => x,
                None => fail(C15 | C06, format!("n{p} is gone")),
            };
            let mut c = x.first_child();
            for _ in 0..i {
                c = c.and_then(|c| c.next_sibling());
            }
            match c {
                Some(c) => self.weak.push(c.downgrade()),
                None => fail(C15, format!("builder did not create n{id}")),
            }
        }
        self.end(post, C15);
    }

    /// Uses tokens with nodes of other trees: must panic and change nothing.
    fn op_badtoken(&mut self, src: &mut Src) {
        let toks: Vec<usize> = (0..self.slots.len())
            .filter(|i| matches!(self.slots[*i].s, S::G(_) | S::P(_)))
            .collect();
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        // A token of some other tree, or one made for the occasion.
        let i = if !toks.is_empty() && src.chance(2, 3) {
            *src.pick(&toks)
        } else {
            let others: Vec<usize> = self
                .m
                .alive_trees()
                .into_iter()
                .filter(|o| *o != t)
                .collect();
            let o = if others.is_empty() {
                return;
            } else {
                *src.pick(&others)
            };
            let is_g = self.m.frozen(o) == 0 && (self.m.hot(o) > 0 || src.chance(1, 2));
            let mut post = self.m.clone();
            if is_g {
                post.trees[o].g += 1;
            } else {
                post.trees[o].p += 1;
            }
            self.begin(C08, &post);
            let tree = self.temp(self.m.trees[o].root).tree();
            let s = if is_g {
                tree.grant_hierarchy_edit().ok().map(S::G)
            } else {
                tree.prohibit_hierarchy_edit().ok().map(S::P)
            };
            match s {
                Some(s) => self.push(s, o),
                None => fail(C08 | self.since, format!("token of t{o} refused")),
            }
            drop(tree);
            self.end(post, 0);
            self.slots.len() - 1
        };
        if self.slots[i].id == t {
            return;
        }
        let kind = src.draw(14);
        let post = self.m.clone();
        let x = self.temp(n);
        let v = self.val(src);
        let d = self.tr.make(v);
        log(|| format!("use token of t{} with n{n} of t{t} (call {kind})", self.slots[i].id));
        class("foreign token");
        finger(14000 + kind as u64);
        if self.prof.own & C09 != 0 {
            nontrivial();
        }
        // Destination for the moving call.
        let dest = self
            .m
            .alive_trees()
            .into_iter()
            .find(|o| self.m.frozen(*o) == 0)
            .map(|o| self.m.trees[o].root);
        let hr = dest.map(|r| self.sel_hot(src, r));
        self.begin(C09, &post);
        let r = may_panic(|| {
            let x2 = x.clone();
            match &self.slots[i].s {
                S::P(p) => {
                    drop(x2.bundle_hierarchy_edit_prohibition(p));
                }
                S::G(g) => match kind {
                    0 => drop(x2.bundle_hierarchy_edit_grant(g)),
                    1 => x2.detach_subtree(g),
                    2 => drop(x2.create_as_first_child(g, d)),
                    3 => drop(x2.create_as_last_child(g, d)),
                    4 => drop(x2.try_create_as_prev_sibling(g, d)),
                    5 => drop(x2.try_create_as_next_sibling(g, d)),
                    6 => drop(x2.create_as_interrupting_parent(g, d)),
                    7 => drop(x2.create_as_interrupting_child(g, d)),
                    8 => drop(x2.try_replace_with_children(g)),
                    9 => drop(x2.try_create_node_as(g, d, adopt_as(v as usize))),
                    10 => drop(x2.create_as_prev_sibling(g, d)),
                    11 => drop(x2.create_as_next_sibling(g, d)),
                    _ => match &hr {
                        Some(h) => drop(x2.try_detach_insert_subtree(
                            g,
                            insert_as(usize::from(kind == 13), self.hr(h)),
                        )),
                        None => drop(x2.create_as_last_child(g, d)),
                    },
                },
                _ => unreachable!(),
            }
        });
        check!(
            C09,
            r.is_err(),
            "token of t{} was accepted for n{n} of t{t} (call {kind})",
            self.slots[i].id
        );
        drop(x);
        drop(hr);
        self.end(post, C09);
    }

    /// Keeps a traverser as a handle.
    fn op_iter(&mut self, src: &mut Src) {
        let n = self.pick_node(src);
        let t = self.m.nodes[n].tree;
        let kind = src.draw(18);
        let frozen = (5..10).contains(&kind);
        if frozen && (self.m.hot(t) > 0 || (self.prof.own & C21 != 0 && !src.chance(1, 4))) {
            return;
        }
        let mut steps = src.draw(4);
        let limit = src.draw(4);
        log(|| format!("traverser {kind} at n{n}, {steps} steps"));
        class("traverser kept");
        finger(15000 + kind as u64);
        let mut post = self.m.clone();
        let tags = C11 | C12 | C13 | C21;
        self.begin(tags | C05, &post);
        let x = self.temp(n);
        let m = &self.m;
        let sibs = |n: usize| -> Vec<usize> {
            match m.nodes[n].parent {
                Some(p) => m.nodes[p].children.clone(),
                None => vec![n],
            }
        };
        let ch = &m.nodes[n].children;
        let (mut it, mut cur) = if !frozen {
            let ev = |open| Cur::Ev {
                next: Some((open, n)),
                start: n,
            };
            match kind {
                0 => (It::Dft(x.depth_first_traverse()), ev(true)),
                1 => (It::Rdft(x.depth_first_reverse_traverse()), ev(false)),
                2 => (It::Sib(x.siblings()), Cur::Node(Some(sibs(n)[0]))),
                3 => (
                    It::Rsib(x.siblings_reverse()),
                    Cur::Node(Some(*sibs(n).last().unwrap())),
                ),
                4 => (It::Anc(x.ancestors_or_self()), Cur::Node(Some(n))),
                10 => {
                    // What it does after a failed item is not specified.
                    steps = 0;
                    (It::Ser(x.to_events()), ev(true))
                }
                11 => (It::Sib(x.children()), Cur::Node(ch.first().copied())),
                12 => (It::Rsib(x.children_reverse()), Cur::Node(ch.last().copied())),
                13 => (It::Sib(x.following_siblings()), Cur::Node(m.next_sib(n))),
                14 => (
                    It::Rsib(x.preceding_siblings_reverse()),
                    Cur::Node(m.prev_sib(n)),
                ),
                15 => (It::Anc(x.ancestors()), Cur::Node(m.nodes[n].parent)),
                16 => (It::Ev(DftEvent::Open(x.clone())), ev(true)),
                _ => (It::Ev(DftEvent::Close(x.clone())), ev(false)),
            }
        } else {
            let f = match x.clone().bundle_new_hierarchy_edit_prohibition() {
                Ok(f) => f,
                Err(_) => fail(C08 | self.since, format!("frozen handle of n{n} refused")),
            };
            match kind {
                5 => (
                    It::SDft(f.depth_first_traverse_stable()),
                    Cur::Seq(m.events(n, usize::MAX, false)),
                ),
                6 => (
                    It::Shallow(f.shallow_depth_first_traverse_stable(Some(limit))),
                    Cur::Seq(m.events(n, limit, true)),
                ),
                7 => (
                    It::SSib(f.siblings_stable()),
                    Cur::Seq(sibs(n).into_iter().map(|k| (true, k, 0)).collect()),
                ),
                8 => (
                    It::NBfs(f.non_allocating_breadth_first_traverse_stable(limit)),
                    Cur::Seq(m.levels(n, limit)),
                ),
                _ => (
                    It::ABfs(f.allocating_breadth_first_traverse_stable(limit)),
                    Cur::Seq(m.levels(n, limit)),
                ),
            }
        };
        drop(x);
        for k in 0..steps {
            let back = k % 2 == 1;
            Self::cur_step(&self.m, &it, &mut cur, back);
            Self::it_step(&mut it, back);
        }
        self.cur_peek(tags | self.since, &it, &cur, n);
        let (plain, fro) = Self::cur_refs(&it, &cur);
        if plain.is_empty() && fro.is_empty() {
            // Exhausted: whether it still refers to anything is not specified.
            drop(it);
        } else {
            for k in &plain {
                post.nodes[*k].n += 1;
            }
            for k in &fro {
                post.nodes[*k].f += 1;
            }
            self.slots.push(Slot {
                s: S::I(it, cur),
                id: n,
                plain,
                frozen: fro,
                stamp: self.edits,
            });
        }
        self.end(post, 0);
    }

    /// The handles a traverser holds.
    fn cur_refs(it: &It, cur: &Cur) -> (Vec<usize>, Vec<usize>) {
        match cur {
            Cur::Ev {
                next: Some((_, c)),
                start,
            } => match it {
                It::Ev(_) => (vec![*c], vec![]),
                _ => (vec![*c, *start], vec![]),
            },
            Cur::Node(Some(c)) => (vec![*c], vec![]),
            Cur::Seq(q) if !q.is_empty() => {
                (vec![], vec![q.front().unwrap().1, q.back().unwrap().1])
            }
            _ => (vec![], vec![]),
        }
    }

    /// Steps the model of a traverser, and returns what it yields.
    fn cur_step(m: &Model, it: &It, cur: &mut Cur, back: bool) -> Option<(bool, usize, usize)> {
        match cur {
            Cur::Ev { next, start } => {
                let (o, n) = (*next)?;
                let to = match it {
                    It::Rdft(_) if o && n == *start => None,
                    It::Rdft(_) => m.ev_prev((o, n)),
                    It::Ev(_) if back => m.ev_prev((o, n)),
                    It::Ev(_) => m.ev_next((o, n)),
                    _ if !o && n == *start => None,
                    _ => m.ev_next((o, n)),
                };
                if to.is_none() && matches!(it, It::Ev(_)) {
                    // There is no further event: it stays.
                    return None;
                }
                *next = to;
                Some((o, n, 0))
            }
            Cur::Node(c) => {
                let n = (*c)?;
                *c = match it {
                    It::Sib(_) => m.next_sib(n),
                    It::Rsib(_) => m.prev_sib(n),
                    _ => m.nodes[n].parent,
                };
                Some((true, n, 0))
            }
            Cur::Seq(q) => match it {
                It::SDft(_) | It::Shallow(_) | It::SSib(_) if back => q.pop_back(),
                _ => q.pop_front(),
            },
        }
    }

    /// Steps a traverser: opening or not, node, depth.
    fn it_step(it: &mut It, back: bool) -> Option<(bool, Node<D>, usize)> {
        fn ev(e: DftEvent<Node<D>>) -> (bool, Node<D>, usize) {
            (matches!(e, DftEvent::Open(_)), e.into_value(), 0)
        }
        fn fev(e: DftEvent<(FrozenNode<D>, usize)>) -> (bool, Node<D>, usize) {
            let open = matches!(e, DftEvent::Open(_));
            let (n, d) = e.into_value();
            (open, n.plain(), d)
        }
        match it {
            It::Dft(i) => i.next().map(ev),
            It::Rdft(i) => i.next().map(ev),
            It::Sib(i) => i.next().map(|n| (true, n, 0)),
            It::Rsib(i) => i.next().map(|n| (true, n, 0)),
            It::Anc(i) => i.next().map(|n| (true, n, 0)),
            It::SDft(i) => {
                let e = if back { i.next_back() } else { i.next() };
                e.map(|e| fev(e.map(|n| (n, 0))))
            }
            It::Shallow(i) => {
                let e = if back { i.next_back() } else { i.next() };
                e.map(fev)
            }
            It::SSib(i) => {
                let e = if back { i.next_back() } else { i.next() };
                e.map(|n| (true, n.plain(), 0))
            }
            It::NBfs(i) => i.next().map(|(n, d)| (true, n.plain(), d)),
            It::ABfs(i) => i.next().map(|(n, d)| (true, n.plain(), d)),
            It::Ser(_) => unreachable!(),
            It::Ev(e) => {
                let next = if back { e.prev() } else { e.next() };
                match next {
                    Some(n) => Some(ev(std::mem::replace(e, n))),
                    None => None,
                }
            }
        }
    }

    /// Whether `x` is node `k` of the model.
    fn is_node(&self, x: &Node<D>, k: usize) -> bool {
        self.weak[k].upgrade().is_some_and(|y| y.ptr_eq(x))
    }

    fn which(&self, x: &Node<D>) -> String {
        match (0..self.m.nodes.len()).find(|k| self.is_node(x, *k)) {
            Some(k) => format!("n{k}"),
            None => "an unknown node".to_string(),
        }
    }

    /// Compares what a traverser shows as next (and last) with the model, and its size hint with what
    /// is left.
    fn cur_peek(&self, tags: Tags, it: &It, cur: &Cur, id: usize) {
        type P = Option<Option<(bool, Node<D>, usize)>>;
        fn ev(e: &DftEvent<Node<D>>) -> (bool, Node<D>, usize) {
            (matches!(e, DftEvent::Open(_)), e.as_value().clone(), 0)
        }
        fn fev(e: &DftEvent<FrozenNode<D>>) -> (bool, Node<D>, usize) {
            (matches!(e, DftEvent::Open(_)), e.as_value().plain(), 0)
        }
        fn dev(e: &DftEvent<(FrozenNode<D>, usize)>) -> (bool, Node<D>, usize) {
            let (n, d) = e.as_value();
            (matches!(e, DftEvent::Open(_)), n.plain(), *d)
        }
        let (front, last, hint): (P, P, _) = match it {
            It::Dft(i) => (Some(i.peek().map(ev)), None, Some(i.size_hint())),
            It::Rdft(i) => (Some(i.peek().map(ev)), None, Some(i.size_hint())),
            It::Sib(i) => (Some(i.peek().map(|n| (true, n.clone(), 0))), None, Some(i.size_hint())),
            It::Rsib(i) => (Some(i.peek().map(|n| (true, n.clone(), 0))), None, Some(i.size_hint())),
            It::Anc(i) => (Some(i.peek().map(|n| (true, n.clone(), 0))), None, Some(i.size_hint())),
            It::SDft(i) => (
                Some(i.peek().map(fev)),
                Some(i.peek_back().map(fev)),
                Some(i.size_hint()),
            ),
            It::Shallow(i) => (
                Some(i.peek().map(dev)),
                Some(i.peek_back().map(dev)),
                Some(i.size_hint()),
            ),
            It::SSib(i) => (
                Some(i.peek().map(|n| (true, n.plain(), 0))),
                Some(i.peek_back().map(|n| (true, n.plain(), 0))),
                Some(i.size_hint()),
            ),
            It::NBfs(i) => (None, None, Some(i.size_hint())),
            It::ABfs(i) => (
                Some(i.peek().map(|(n, d)| (true, n.plain(), d))),
                None,
                Some(i.size_hint()),
            ),
            It::Ser(_) => (None, None, None),
            It::Ev(e) => (Some(Some(ev(e))), None, None),
        };
        let (wf, wl) = match cur {
            Cur::Ev { next, .. } => (next.map(|(o, n)| (o, n, 0)), None),
            Cur::Node(n) => (n.map(|n| (true, n, 0)), None),
            Cur::Seq(q) => (q.front().copied(), q.back().copied()),
        };
        for (what, got, want) in [("next", front, wf), ("last", last, wl)] {
            let Some(got) = got else { continue };
            let ok = match (&got, want) {
                (None, None) => true,
                (Some((o, x, d)), Some((wo, wn, wd))) => {
                    *o == wo && *d == wd && self.is_node(x, wn)
                }
                _ => false,
            };
            if !ok {
                let g = got.map(|(o, x, d)| (o, self.which(&x), d));
                fail(
                    tags,
                    format!(
                        "traverser from n{id}: {what} item shown is {g:?}, expected {want:?}; model {}",
                        self.m.show_all()
                    ),
                );
            }
        }
        if let Some((lo, hi)) = hint {
            let mut c = cur.clone();
            let mut left = 0;
            while Self::cur_step(&self.m, it, &mut c, false).is_some() {
                left += 1;
            }
            check!(
                tags,
                lo <= left && hi.map_or(true, |h| h >= left),
                "traverser from n{id}: size hint ({lo}, {hi:?}) while {left} items are left ({cur:?}); model {}",
                self.m.show_all()
            );
        }
    }

    /// Goes on with a traverser that was kept while other things happened.
    fn op_step(&mut self, src: &mut Src) {
        let c: Vec<usize> = (0..self.slots.len())
            .filter(|i| matches!(self.slots[*i].s, S::I(..)))
            .collect();
        if c.is_empty() {
            return self.op_iter(src);
        }
        let i = *src.pick(&c);
        let slot = self.slots.remove(i);
        let id = slot.id;
        let (plain, frozen, stamp) = (slot.plain, slot.frozen, slot.stamp);
        let S::I(mut it, mut cur) = slot.s else {
            unreachable!()
        };
        let act = src.draw(8);
        let back = matches!(act, 4 | 5)
            && matches!(it, It::SDft(_) | It::Shallow(_) | It::SSib(_) | It::Ev(_));
        let close = act == 6
            && matches!(it, It::Dft(_) | It::SDft(_) | It::Shallow(_) | It::Ev(_));
        let tags = C21 | self.since;
        let stale = stamp != self.edits;
        log(|| format!("step of a traverser from n{id} ({act}), next {cur:?}"));
        class(if stale { "step after an edit" } else { "step" });
        if self.prof.own & C21 != 0 && stale {
            nontrivial();
        }
        finger(16000 + act as u64);
        let mut post = self.m.clone();
        if act == 7 {
            // A copy goes on from the same place.
            self.begin(tags | C05, &post);
            let copy = match &it {
                It::Dft(i) => It::Dft(i.clone()),
                It::Rdft(i) => It::Rdft(i.clone()),
                It::Sib(i) => It::Sib(i.clone()),
                It::Rsib(i) => It::Rsib(i.clone()),
                It::Anc(i) => It::Anc(i.clone()),
                It::SDft(i) => It::SDft(i.clone()),
                It::Shallow(i) => It::Shallow(i.clone()),
                It::SSib(i) => It::SSib(i.clone()),
                It::NBfs(i) => It::NBfs(i.clone()),
                It::ABfs(i) => It::ABfs(i.clone()),
                It::Ser(i) => It::Ser(i.clone()),
                It::Ev(e) => It::Ev(e.clone()),
            };
            self.cur_peek(tags, &it, &cur, id);
            self.cur_peek(tags, &copy, &cur, id);
            for k in &plain {
                post.nodes[*k].n += 1;
            }
            for k in &frozen {
                post.nodes[*k].f += 1;
            }
            for (it, cur) in [(it, cur.clone()), (copy, cur)] {
                self.slots.push(Slot {
                    s: S::I(it, cur),
                    id,
                    plain: plain.clone(),
                    frozen: frozen.clone(),
                    stamp,
                });
            }
            self.end(post, 0);
            return;
        }
        // What is expected.
        let before = cur.clone();
        let mut count = 0;
        let want = if let It::Ser(_) = it {
            let w = Self::cur_step(&self.m, &it, &mut cur, false);
            count = 1;
            if let Some((false, ..)) = w {
                while let Cur::Ev {
                    next: Some((false, _)),
                    ..
                } = cur
                {
                    Self::cur_step(&self.m, &it, &mut cur, false);
                    count += 1;
                }
            }
            w
        } else if close {
            let mut depth = 0;
            loop {
                let mut e = Self::cur_step(&self.m, &it, &mut cur, false);
                if let (It::Ev(_), Some(_), Cur::Ev { next: Some((o, n)), .. }) = (&it, e, &cur) {
                    // The step goes to the event it shows next.
                    e = Some((*o, *n, 0));
                }
                match e {
                    Some((true, ..)) => depth += 1,
                    Some(_) if depth == 0 => break e,
                    Some(_) => depth -= 1,
                    None => break None,
                }
            }
        } else {
            Self::cur_step(&self.m, &it, &mut cur, back)
        };
        let mut failed = false;
        if let (It::Ser(_), Some((true, n, _))) = (&it, want) {
            failed = self.m.nodes[n].xb;
        }
        if let It::Ev(_) = it {
            if close {
                // Closing an event yields a node and leaves the event.
                cur = before.clone();
            }
        }
        let (mut np, mut nf) = Self::cur_refs(&it, &cur);
        if failed {
            // What comes after a failure is not specified.
            (np, nf) = (vec![], vec![]);
        }
        let gone = np.is_empty() && nf.is_empty();
        for k in &plain {
            post.nodes[*k].n -= 1;
        }
        for k in &frozen {
            post.nodes[*k].f -= 1;
        }
        for k in &np {
            post.nodes[*k].n += 1;
        }
        for k in &nf {
            post.nodes[*k].f += 1;
        }
        let dead = post.settle();
        if !dead.is_empty() {
            class("step that drops the last handle");
        }
        self.begin(tags | C05 | self.bt(), &post);
        self.cur_peek(tags, &it, &before, id);
        let show = |s: &Self, g: &Option<(bool, Node<D>, usize)>| {
            g.as_ref().map(|(o, x, d)| (*o, s.which(x), *d))
        };
        if let It::Ser(ser) = &mut it {
            let got = ser.next();
            let ok = match (&got, want) {
                (Some(Ok(dendron::serial::Event::Open(d))), Some((true, n, _))) => {
                    !failed && d.val == self.m.nodes[n].val
                }
                (Some(Ok(dendron::serial::Event::Close(k))), Some((false, ..))) => *k == count,
                (Some(Err(_)), _) => failed,
                (None, None) => true,
                _ => false,
            };
            let g = match &got {
                Some(Ok(dendron::serial::Event::Open(d))) => format!("open {}", d.val),
                Some(Ok(dendron::serial::Event::Close(k))) => format!("close {k}"),
                Some(Err(_)) => "error".to_string(),
                None => "nothing".to_string(),
            };
            check!(
                tags,
                ok,
                "events from n{id}: got {g}, expected {want:?} ({count}, failed {failed}); model {}",
                self.m.show_all()
            );
        } else {
            let got = if close {
                match &mut it {
                    It::Dft(i) => i.close_current().map(|n| (false, n, 0)),
                    It::SDft(i) => i.close_current().map(|n| (false, n.plain(), 0)),
                    It::Shallow(i) => i.close_current().map(|(n, d)| (false, n.plain(), d)),
                    It::Ev(e) => e.close_current().map(|n| (false, n, 0)),
                    _ => unreachable!(),
                }
            } else {
                Self::it_step(&mut it, back)
            };
            let ok = match (&got, want) {
                (None, None) => true,
                (Some((o, x, d)), Some((wo, wn, wd))) => {
                    *o == wo && *d == wd && self.is_node(x, wn)
                }
                _ => false,
            };
            if !ok {
                fail(
                    tags,
                    format!(
                        "traverser from n{id}: step ({act}) gives {:?}, expected {want:?}; model {}",
                        show(self, &got),
                        self.m.show_all()
                    ),
                );
            }
            drop(got);
            if gone {
                // It stays exhausted.
                let again = Self::it_step(&mut it, back);
                if again.is_some() {
                    fail(
                        tags,
                        format!(
                            "traverser from n{id}: gives {:?} after its end; model {}",
                            show(self, &again),
                            self.m.show_all()
                        ),
                    );
                }
            } else {
                self.cur_peek(tags, &it, &cur, id);
            }
        }
        // A traversal that has come to its end holds nothing, so it stays where it is.
        if !gone {
            self.slots.push(Slot {
                s: S::I(it, cur),
                id,
                plain: np,
                frozen: nf,
                stamp: self.edits,
            });
        } else if !failed {
            self.ended.push(it);
        }
        self.end(post, 0);
    }

    // ------------------------------------------------------------------------------- end of case

    fn finish(&mut self, src: &mut Src) {
        set_scope(0);
        if self.prof.own & C23 != 0 && self.edits > 1 {
            nontrivial();
        }
        // Borrows first, then handles owned by data, then everything else in random order.
        let mut i = 0;
        while i < self.slots.len() {
            if matches!(self.slots[i].s, S::B(_)) {
                self.drop_slot(i);
                self.light();
            } else {
                i += 1;
            }
        }
        if src.chance(1, 2) {
            for n in 0..self.m.nodes.len() {
                if self.m.nodes[n].alive && !self.m.nodes[n].extra.is_empty() {
                    self.clear_extra(n);
                    self.light();
                }
            }
        }
        while !self.slots.is_empty() {
            let i = src.draw(self.slots.len());
            self.drop_slot(i);
            self.light();
        }
        // Only cycles of trees owning each other can be left.
        loop {
            let Some(n) = (0..self.m.nodes.len())
                .find(|n| self.m.nodes[*n].alive && !self.m.nodes[*n].extra.is_empty())
            else {
                break;
            };
            self.clear_extra(n);
            self.light();
        }
        let live = self.tr.live();
        check!(
            C05 | C23,
            live.is_empty(),
            "data {live:?} still alive after every handle was dropped"
        );
        check!(
            C05,
            self.m.alive_trees().is_empty(),
            "harness: model trees left alive"
        );
        self.ended.clear();
    }

    fn clear_extra(&mut self, n: usize) {
        let mut post = self.m.clone();
        for e in std::mem::take(&mut post.nodes[n].extra) {
            post.nodes[e].n -= 1;
        }
        post.settle();
        let x = self.temp(n);
        self.begin(C05 | C18, &post);
        let v = match x.try_borrow_data() {
            Ok(d) => std::mem::take(&mut *d.extra.borrow_mut()),
            Err(_) => fail(C18, format!("shared borrow of n{n} refused")),
        };
        drop(x);
        drop(v);
        self.end(post, 0);
    }
}

