//! What code of the user's data type (clone, compare, print, drop) and iterators do with the library
//! while the library calls them (C22).

use std::cell::{Cell, RefCell};
use std::rc::Rc;

use dendron::{InsertAs, Node, NodeWeak};

use crate::choice::mix;
use crate::cx::*;
use crate::data::{Tracker, D};
use crate::model::Model;

/// The trees around the operation that is running.
pub struct Stage {
    pub weak: Vec<NodeWeak<D>>,
    pub pre: Model,
    pub post: Model,
    /// Nodes that live through the operation.
    pub keep: Vec<usize>,
    pub seed: Cell<u64>,
}

thread_local! {
    static STAGE: RefCell<Option<Rc<Stage>>> = const { RefCell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
    static RUNS: Cell<u64> = const { Cell::new(0) };
    /// Handles the running operation itself holds: tree, hot, frozen.
    static LOCKS: Cell<Option<(usize, usize, usize)>> = const { Cell::new(None) };
    static SIDE: RefCell<Option<Side>> = const { RefCell::new(None) };
}

/// A tree of the callbacks' own that stays from one to the next: a root with leaves.
struct Side {
    tr: Rc<Tracker>,
    root: Node<D>,
    leaves: Vec<u32>,
}

/// From now on and until the end of the operation, only these locks are held besides those of the model
/// (as seen from code that is not a destructor).
pub fn locks(tree: usize, hot: usize, frozen: usize) {
    LOCKS.with(|l| l.set(Some((tree, hot, frozen))));
}

pub fn set_stage(s: Option<Stage>) {
    LOCKS.with(|l| l.set(None));
    let old = STAGE.with(|c| c.replace(s.map(Rc::new)));
    drop(old);
}

pub fn clear() {
    set_stage(None);
    ERROR.with(|e| *e.borrow_mut() = None);
    let s = SIDE.with(|s| s.borrow_mut().take());
    drop(s);
    BUSY.with(|b| b.set(false));
}

/// Number of callbacks that used the library since the last call.
pub fn runs() -> u64 {
    RUNS.with(|r| r.replace(0))
}

pub fn error() -> Option<String> {
    ERROR.with(|e| e.borrow_mut().take())
}

pub fn busy() -> bool {
    BUSY.with(|b| b.get())
}

/// Called from all code of the user that the library runs.
pub fn user_code(what: &str) {
    if BUSY.with(|b| b.get()) {
        return;
    }
    let Some(stage) = STAGE.with(|s| s.borrow().clone()) else {
        return;
    };
    BUSY.with(|b| b.set(true));
    let r = apart(C22, || act(&stage, what != "a destructor"));
    BUSY.with(|b| b.set(false));
    if !stage.keep.is_empty() {
        RUNS.with(|r| r.set(r.get() + 1));
    }
    if let Err(m) = r {
        ERROR.with(|e| {
            let mut e = e.borrow_mut();
            if e.is_none() {
                *e = Some(format!("in {what} called by the library: {m}"));
            }
        });
    }
}

struct Rnd(u64);
impl Rnd {
    fn draw(&mut self, n: usize) -> usize {
        self.0 = mix(&[self.0, 77]);
        (self.0 % n.max(1) as u64) as usize
    }
}

fn act(st: &Stage, calm: bool) {
    let mut r = Rnd(st.seed.get());
    st.seed.set(mix(&[st.seed.get(), 5]));
    // The trees are all as before the operation, or all as after it.
    let mut seen = [None, None];
    let mut check = |ok: [bool; 2], what: &dyn Fn() -> String| {
        for i in 0..2 {
            if !ok[i] && seen[i].is_none() {
                seen[i] = Some(what());
            }
        }
        if let [Some(a), Some(b)] = &seen {
            fail(
                C22,
                format!(
                    "{b}: neither as before nor as after the operation (not as before: {a}); before {}; after {}",
                    st.pre.show_all(),
                    st.post.show_all()
                ),
            );
        }
    };
    for _ in 0..4 {
        if st.keep.is_empty() {
            break;
        }
        let n = st.keep[r.draw(st.keep.len())];
        look(st, n, calm, &mut r, &mut check);
    }
    match r.draw(3) {
        0 => side(&mut r),
        1 => fresh(&mut r),
        _ => {}
    }
}

fn look(
    st: &Stage,
    n: usize,
    calm: bool,
    r: &mut Rnd,
    check: &mut dyn FnMut([bool; 2], &dyn Fn() -> String),
) {
    let ms = [&st.pre, &st.post];
    let Some(x) = st.weak[n].upgrade() else {
        return check([false, false], &|| format!("weak reference to n{n} does not upgrade"));
    };
    // A node that has no weak reference yet is accepted without comparison.
    let is = |got: &Option<Node<D>>, want: Option<usize>| match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => match st.weak.get(w) {
            Some(wk) => wk.upgrade().is_some_and(|h| h.ptr_eq(g)),
            None => true,
        },
        _ => false,
    };
    let mut same = |what: &str, got: Option<Node<D>>, want: &dyn Fn(&Model) -> Option<usize>| {
        let ok = [is(&got, want(ms[0])), is(&got, want(ms[1]))];
        check(ok, &|| {
            let g = got.as_ref().map(|g| {
                (0..st.weak.len())
                    .find(|k| st.weak[*k].upgrade().is_some_and(|h| h.ptr_eq(g)))
                    .map_or("another node".to_string(), |k| format!("n{k}"))
            });
            format!("{what} of n{n} is {}", g.unwrap_or("none".into()))
        });
    };
    same("parent", x.parent(), &|m| m.nodes[n].parent);
    same("first child", x.first_child(), &|m| m.nodes[n].children.first().copied());
    same("last child", x.last_child(), &|m| m.nodes[n].children.last().copied());
    same("next sibling", x.next_sibling(), &|m| m.next_sib(n));
    same("previous sibling", x.prev_sibling(), &|m| m.prev_sib(n));
    same("root", Some(x.root()), &|m| Some(m.root_of(n)));
    same("root of the tree", Some(x.tree().root()), &|m| Some(m.root_of(n)));
    if let Ok(d) = x.try_borrow_data() {
        let ok = [ms[0].nodes[n].did == d.id, ms[1].nodes[n].did == d.id];
        let id = d.id;
        check(ok, &|| format!("datum of n{n} is #{id}"));
    }
    let mut num = |what: &str, got: usize, want: &dyn Fn(&Model) -> usize| {
        let ok = [got == want(ms[0]), got == want(ms[1])];
        check(ok, &|| format!("{what} of n{n} is {got}"));
    };
    let other = st.keep[r.draw(st.keep.len())];
    match r.draw(8) {
        0 => {
            let bound = 2 * (ms[0].nodes.len() + ms[1].nodes.len()) + 4;
            let k = x.depth_first_traverse().take(bound).count();
            num("number of depth-first events", k, &|m| 2 * m.subtree(n).len());
        }
        1 => {
            let bound = ms[0].nodes.len() + ms[1].nodes.len() + 4;
            let k = x.ancestors().take(bound).count();
            num("number of ancestors", k, &|m| m.depth(n));
        }
        2 => num("number of children", x.num_children(), &|m| m.nodes[n].children.len()),
        3 => num("number of preceding siblings", x.count_preceding_siblings(), &|m| match m.nodes[n].parent {
            Some(_) => m.index(n),
            None => 0,
        }),
        4 => {
            if let Some(y) = st.weak[other].upgrade() {
                let got = x.belongs_to_same_tree(&y);
                let ok = [0, 1].map(|i| got == (ms[i].nodes[n].tree == ms[i].nodes[other].tree));
                check(ok, &|| format!("n{n} and n{other} in the same tree: {got}"));
            }
        }
        5 => {
            // Locks may be requested; which of them succeed depends on those of the operation.
            let t = x.tree();
            let g = t.grant_hierarchy_edit();
            let p = t.prohibit_hierarchy_edit();
            if g.is_ok() && p.is_ok() {
                fail(C22, format!("editing of the tree of n{n} is granted and prohibited at once"));
            }
            let granted = g.is_ok();
            drop((g, p));
            let p = t.prohibit_hierarchy_edit();
            let got = (granted, p.is_ok());
            if let (true, Some((tree, hot, frozen))) = (calm, LOCKS.with(|l| l.get())) {
                let here = ms[0].nodes[n].tree;
                let k = usize::from(here == tree);
                let want = (
                    ms[0].frozen(here) + k * frozen == 0,
                    ms[0].hot(here) + k * hot == 0,
                );
                if got != want {
                    fail(
                        C22,
                        format!("edit of the tree of n{n} can be (granted, prohibited): {got:?}, expected {want:?}"),
                    );
                }
            }
        }
        6 => {
            let w = x.downgrade();
            let many: Vec<_> = (0..3).map(|_| x.clone()).collect();
            drop(many);
            if !w.upgrade().is_some_and(|y| y.ptr_eq(&x)) {
                fail(C22, format!("a new weak reference to n{n} does not upgrade to it"));
            }
        }
        _ => {
            let k = x.tree().downgrade().upgrade().is_some_and(|t| t.root().ptr_eq(&x.root()));
            if !k {
                fail(C22, format!("weak reference to the tree of n{n} does not upgrade to it"));
            }
        }
    }
}

/// Edits the tree kept by the callbacks.
fn side(r: &mut Rnd) {
    let mut s = match SIDE.with(|s| s.borrow_mut().take()) {
        Some(s) => s,
        None => {
            let tr = Tracker::new();
            Side {
                root: Node::new_tree(tr.make(0)),
                tr,
                leaves: Vec::new(),
            }
        }
    };
    let v = 1 + r.draw(1000) as u32;
    let Ok(h) = s.root.clone().bundle_new_hierarchy_edit_grant() else {
        fail(C22, "editing of an unrelated tree is refused".into())
    };
    match r.draw(4) {
        0 if !s.leaves.is_empty() => {
            let c = s.root.first_child().unwrap();
            let g = s.root.tree().grant_hierarchy_edit().unwrap();
            c.detach_subtree(&g);
            s.leaves.remove(0);
        }
        1 if s.leaves.len() > 1 => {
            let c = s.root.last_child().unwrap().bundle_new_hierarchy_edit_grant().unwrap();
            if c.try_detach_insert_subtree(InsertAs::FirstChildOf(&h)).is_err() {
                fail(C22, "a move in an unrelated tree is refused".into());
            }
            let l = s.leaves.pop().unwrap();
            s.leaves.insert(0, l);
        }
        2 if s.leaves.len() < 6 => {
            h.create_as_first_child(s.tr.make(v));
            s.leaves.insert(0, v);
        }
        _ if s.leaves.len() < 6 => {
            h.create_as_last_child(s.tr.make(v));
            s.leaves.push(v);
        }
        _ => {}
    }
    drop(h);
    let got: Vec<u32> = s.root.children().take(20).map(|c| c.borrow_data().val).collect();
    if got != s.leaves || s.tr.live().len() != s.leaves.len() + 1 {
        fail(C22, format!("an unrelated tree has the children {got:?}, expected {:?}", s.leaves));
    }
    SIDE.with(|c| *c.borrow_mut() = Some(s));
}

/// Makes and drops a small tree.
fn fresh(r: &mut Rnd) {
    let tr = Tracker::new();
    let root = Node::new_tree(tr.make(0));
    let g = root.tree().grant_hierarchy_edit().unwrap();
    let a = root.create_as_last_child(&g, tr.make(1));
    let b = a.create_as_first_child(&g, tr.make(2));
    a.create_as_last_child(&g, tr.make(3));
    let mut want = 4;
    match r.draw(4) {
        0 => {
            let (a, b) = (a.clone(), b.clone());
            let (Ok(a), Ok(b)) = (
                a.bundle_new_hierarchy_edit_grant(),
                b.bundle_new_hierarchy_edit_grant(),
            ) else {
                fail(C22, "editing of an unrelated tree is refused".into())
            };
            if b.try_detach_insert_subtree(InsertAs::NextSiblingOf(&a)).is_err() || root.num_children() != 2 {
                fail(C22, "a move in an unrelated tree is refused or wrong".into());
            }
        }
        1 => {
            let c = a.clone_subtree();
            if c != a || tr.live().len() != 7 {
                fail(C22, "a copy in a callback is wrong".into());
            }
        }
        2 => {
            if a.try_replace_with_children(&g).is_err() {
                fail(C22, "a replacement in an unrelated tree is refused".into());
            }
            let vals: Vec<u32> = root.children().take(9).map(|c| c.borrow_data().val).collect();
            if vals != [2, 3] {
                fail(C22, format!("a replacement in an unrelated tree gives {vals:?}"));
            }
        }
        _ => {
            a.detach_subtree(&g);
            drop(root);
            drop(g);
            want = 3;
        }
    }
    if tr.live().len() != want {
        fail(C22, format!("{} data of an unrelated tree are live, expected {want}", tr.live().len()));
    }
    drop(a);
    drop(b);
}
