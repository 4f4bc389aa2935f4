//! C14 (events of a tree and back) and C15 (the tree builder).

use std::cell::{Ref, RefMut};

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::data::D;
use crate::fixture::{Fix, Lim};
use crate::model::{Model, Pos};
use crate::nav;

/// One item of the event stream: open with (data id of the original, value), borrow error, close.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum It {
    Open(Option<u32>, u32),
    Err,
    Close(usize),
}

fn it_of<E>(e: &Result<Event<D>, E>) -> It {
    match e {
        Ok(Event::Open(d)) => It::Open(d.origin, d.val),
        Ok(Event::Close(k)) => It::Close(*k),
        Err(_) => It::Err,
    }
}

/// The canonical stream of the subtree.
fn canon(m: &Model, n: usize) -> Vec<It> {
    let mut v: Vec<It> = Vec::new();
    for (open, x, _) in evs_of(m, n) {
        if open {
            let m = &m.nodes[x];
            v.push(if m.xb {
                It::Err
            } else {
                It::Open(Some(m.did), m.val)
            });
        } else if let Some(It::Close(k)) = v.last_mut() {
            *k += 1;
        } else {
            v.push(It::Close(1));
        }
    }
    v
}

/// Borrows data of random nodes and keeps the borrows.
pub struct Borrows<'a> {
    pub sh: Vec<Ref<'a, D>>,
    pub ex: Vec<RefMut<'a, D>>,
}

pub fn borrow_some<'a>(src: &mut Src, f: &'a Fix, m: &mut Model) -> Borrows<'a> {
    let mut b = Borrows {
        sh: Vec::new(),
        ex: Vec::new(),
    };
    for _ in 0..src.draw(4) {
        let n = src.draw(f.h.len());
        if src.chance(1, 2) {
            if m.nodes[n].sh == 0 && !m.nodes[n].xb {
                m.nodes[n].xb = true;
                let r = lib(C18, || f.h[n].try_borrow_data_mut());
                match r {
                    Ok(x) => b.ex.push(x),
                    Err(_) => fail(C18, format!("exclusive borrow of n{n} refused")),
                }
                log(|| format!("n{n} borrowed exclusively"));
            }
        } else if !m.nodes[n].xb {
            m.nodes[n].sh += 1;
            let r = lib(C18, || f.h[n].try_borrow_data());
            match r {
                Ok(x) => b.sh.push(x),
                Err(_) => fail(C18, format!("shared borrow of n{n} refused")),
            }
            log(|| format!("n{n} borrowed shared"));
        }
    }
    b
}

/// Walks a built tree and compares shape, values and origins with the subtree of the model.
/// Returns the plain handles in preorder.
pub fn same_tree(
    tags: Tags,
    what: &str,
    m: &Model,
    top: usize,
    root: &Node<D>,
    origin: Option<bool>,
) -> Vec<Node<D>> {
    let order = m.subtree(top);
    let mut out: Vec<Node<D>> = Vec::new();
    lib(tags, || {
        let mut st: Vec<(usize, Node<D>)> = vec![(top, root.clone())];
        while let Some((n, x)) = st.pop() {
            {
                let d = match x.try_borrow_data() {
                    Ok(d) => d,
                    Err(_) => fail(tags, format!("{what}: datum of the copy of n{n} is borrowed")),
                };
                let w = &m.nodes[n];
                check!(
                    tags,
                    d.val == w.val,
                    "{what}: the copy of n{n} holds {}, expected {}",
                    d.val,
                    w.val
                );
                match origin {
                    Some(true) => check!(
                        tags,
                        d.origin == Some(w.did),
                        "{what}: the copy of n{n} holds a clone of datum {:?}, expected #{}",
                        d.origin,
                        w.did
                    ),
                    Some(false) => check!(
                        tags,
                        d.id == w.did,
                        "{what}: n{n} holds datum #{}, expected #{}",
                        d.id,
                        w.did
                    ),
                    None => {}
                }
            }
            let want = &w_children(m, n);
            let mut c = x.first_child();
            let mut kids = Vec::new();
            while let Some(k) = c {
                c = k.next_sibling();
                kids.push(k);
                check!(
                    tags,
                    kids.len() <= want.len(),
                    "{what}: the copy of n{n} has more than {} children",
                    want.len()
                );
            }
            check!(
                tags,
                kids.len() == want.len(),
                "{what}: the copy of n{n} has {} children, expected {}",
                kids.len(),
                want.len()
            );
            for (a, b) in want.iter().zip(kids).rev() {
                st.push((*a, b));
            }
            out.push(x);
        }
    });
    check!(tags, out.len() == order.len(), "{what}: {} nodes, expected {}", out.len(), order.len());
    out
}

fn w_children(m: &Model, n: usize) -> Vec<usize> {
    m.nodes[n].children.clone()
}

/// The new tree answers navigation like a tree of its own, and is independent of the source.
#[allow(clippy::too_many_arguments)]
fn independent(
    src: &mut Src,
    tags: Tags,
    what: &str,
    f: &Fix,
    m: &Model,
    n: usize,
    copy: &Node<D>,
    all: &[Node<D>],
    kind: usize,
) {
    lib(tags, || {
        check!(tags, copy.is_root(), "{what}: the copy is not a root");
        check!(
            tags,
            !copy.belongs_to_same_tree(&f.h[n]) && !copy.tree().ptr_eq(&f.h[n].tree()),
            "{what}: the copy belongs to the tree of the source"
        );
        for x in all {
            check!(
                tags,
                copy.belongs_to_same_tree(x),
                "{what}: a node of the copy is not in the tree of the copy"
            );
        }
        // Locks: as bundled, and not shared with the source.
        let g = copy.tree().grant_hierarchy_edit();
        check!(
            tags,
            g.is_ok() == (kind != 1),
            "{what}: edit grant for the copy: {}, expected {}",
            g.is_ok(),
            kind != 1
        );
        drop(g);
        let p = copy.tree().prohibit_hierarchy_edit();
        check!(
            tags,
            p.is_ok() == (kind != 2),
            "{what}: edit prohibition for the copy: {}, expected {}",
            p.is_ok(),
            kind != 2
        );
        drop(p);
    });
    // Navigation over the copy.
    let order = m.subtree(n);
    let mut mm = Model::default();
    let mut map = std::collections::HashMap::new();
    for x in &order {
        let v = m.nodes[*x].val;
        let id = if *x == n {
            mm.new_tree(0, v)
        } else {
            mm.create(Pos::Last(map[&m.nodes[*x].parent.unwrap()]), 0, v)
        };
        map.insert(*x, id);
    }
    let h: Vec<Option<Node<D>>> = all.iter().map(|x| Some(x.clone())).collect();
    nav::check_tree(&mm, 0, &h, tags, false, false);
    // Data are separate.
    let k = src.draw(all.len());
    lib(tags, || {
        let mut d = all[k].borrow_data_mut();
        let old = d.val;
        d.val = 999_999;
        if !m.nodes[order[k]].xb {
            check!(
                tags,
                f.h[order[k]].borrow_data().val == m.nodes[order[k]].val,
                "{what}: writing the copy's data changed the source"
            );
        }
        d.val = old;
    });
    // Hierarchies are separate.
    if kind == 0 {
        let made = lib(tags, || {
            let g = copy.tree().grant_hierarchy_edit().unwrap();
            let d = f.tr.make(5);
            let c = copy.create_as_first_child(&g, d);
            c
        });
        let hh: Vec<Option<Node<D>>> = f.h.iter().map(|x| Some(x.clone())).collect();
        nav::check_tree(m, 0, &hh, tags, false, false);
        lib(tags, || {
            check!(
                tags,
                copy.first_child().map_or(false, |c| c.ptr_eq(&made)),
                "{what}: a node created in the copy is not there"
            );
        });
    }
}

const SHOWN: usize = 24;

fn show(v: &[It]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(SHOWN)
        .map(|i| match i {
            It::Open(o, v) => format!("Open({o:?}:{v})"),
            It::Err => "Err".into(),
            It::Close(k) => format!("Close({k})"),
        })
        .collect();
    s.join(" ")
}

pub fn c14(src: &mut Src) {
    let f = Fix::new(
        src,
        &Lim {
            vals: 6,
            ..Lim::default()
        },
    );
    let t = C14;
    let mut m = f.m.clone();
    let n = if src.chance(1, 2) { 0 } else { src.draw(f.h.len()) };
    let bs = if src.chance(1, 2) {
        Some(borrow_some(src, &f, &mut m))
    } else {
        None
    };
    let borrowed = m.subtree(n).iter().any(|x| m.nodes[*x].xb);
    if m.subtree(n).len() >= 3 {
        nontrivial();
    }
    class(if borrowed { "with exclusively borrowed data" } else { "all data readable" });
    class(if n == 0 { "from the root" } else { "from an inner node" });
    let want = canon(&m, n);
    let kind = src.draw(3);
    log(|| format!("events from n{n}, handle kind {kind}"));
    // 1. The stream itself.
    {
        let new_stream = || match kind {
            0 => f.h[n].to_events(),
            1 => f.frozen(n).to_events(),
            _ => f.hot(n).to_events(),
        };
        let mut s = lib(t, new_stream);
        let cut = src.draw(want.len() + 1);
        let mut got: Vec<It> = Vec::new();
        let mut fork: Option<(usize, _)> = None;
        lib(t, || {
            loop {
                if got.len() == cut && fork.is_none() {
                    fork = Some((cut, s.clone()));
                }
                match s.next() {
                    Some(e) => got.push(it_of(&e)),
                    None => break,
                }
                if got.len() > want.len() {
                    break;
                }
            }
        });
        check!(
            t,
            got == want,
            "event stream of n{n}: {}, expected {}",
            show(&got),
            show(&want)
        );
        if let Some((k, c)) = fork {
            let got: Vec<It> = lib(t, || c.take(want.len() + 1).map(|e| it_of(&e)).collect());
            check!(
                t,
                got[..] == want[k..],
                "stream of n{n} cloned after {k} items: {}, expected {}",
                show(&got),
                show(&want[k..])
            );
        }
        // Merging does not depend on how the iterator is driven.
        if src.chance(1, 3) {
            let k = src.draw(want.len() + 2);
            let got = lib(t, || new_stream().nth(k).map(|e| it_of(&e)));
            check!(t, got == want.get(k).copied(), "nth({k}) of the stream: {got:?}");
            let c = lib(t, || new_stream().take(want.len() + 2).count());
            check!(t, c == want.len(), "count of the stream: {c}, expected {}", want.len());
            let (lo, hi) = lib(t, || new_stream().size_hint());
            check!(
                t,
                lo <= want.len() && hi.map_or(true, |h| h >= want.len()),
                "size hint of the stream ({lo}, {hi:?}), but it has {} items",
                want.len()
            );
        }
    }
    // 2. Single events.
    {
        let x = src.draw(f.h.len());
        let open = src.chance(2, 3);
        let xb = m.nodes[x].xb;
        let w = match (open, xb) {
            (true, true) => It::Err,
            (true, false) => It::Open(Some(m.nodes[x].did), m.nodes[x].val),
            _ => It::Close(1),
        };
        let k = src.draw(3);
        let got = lib(t, || match k {
            0 => {
                let v = f.h[x].clone();
                let e = if open { DftEvent::Open(v) } else { DftEvent::Close(v) };
                it_of(&Event::<D>::try_from(e))
            }
            1 => {
                let v = f.frozen(x);
                let e = if open { DftEvent::Open(v) } else { DftEvent::Close(v) };
                it_of(&Event::<D>::try_from(e))
            }
            _ => {
                let v = f.hot(x);
                let e = if open { DftEvent::Open(v) } else { DftEvent::Close(v) };
                it_of(&Event::<D>::try_from(e))
            }
        });
        check!(t, got == w, "single event of n{x} (open {open}): {got:?}, expected {w:?}");
        let v = src.draw(9);
        lib(t, || {
            check!(
                t,
                Event::Open(v).map(|x| x + 1) == Event::Open(v + 1)
                    && Event::<usize>::Close(v).map(|x| x + 1) == Event::Close(v),
                "Event::map changed the event"
            );
        });
    }
    // 3. And back.
    let way = src.draw(6);
    let before = f.tr.live();
    class(["collect into Node", "collect into FrozenNode", "collect into HotNode", "collect into Tree", "collect traversal events", "push traversal events"][way]);
    log(|| format!("collect, way {way}"));
    let built: Result<(Node<D>, usize, Keep), bool> = lib(t, || {
        if way >= 4 {
            // Traversal events.
            let r: Result<Node<D>, TreeBuildError> = if way == 4 {
                f.h[n].depth_first_traverse().collect()
            } else {
                let mut b = TreeBuilder::new();
                b.push_dft_events(f.h[n].depth_first_traverse())
                    .and_then(|()| b.finish())
            };
            return match r {
                Ok(x) => Ok((x, 0, Keep::None)),
                Err(TreeBuildError::BorrowData(_)) => Err(true),
                Err(_) => Err(false),
            };
        }
        let evs: Result<Vec<Event<D>>, _> = f.h[n].to_events().collect();
        let evs = match evs {
            Ok(e) => e,
            Err(_) => return Err(true),
        };
        match way {
            0 => evs
                .into_iter()
                .collect::<Result<Node<D>, _>>()
                .map(|x| (x, 0, Keep::None)),
            1 => evs
                .into_iter()
                .collect::<Result<FrozenNode<D>, _>>()
                .map(|x| (x.plain(), 1, Keep::Frozen(x))),
            2 => evs
                .into_iter()
                .collect::<Result<HotNode<D>, _>>()
                .map(|x| (x.plain(), 2, Keep::Hot(x))),
            _ => evs
                .into_iter()
                .collect::<Result<Tree<D>, _>>()
                .map(|x| (x.root(), 0, Keep::Tree(x))),
        }
        .map_err(|_| false)
    });
    match built {
        Err(true) => check!(t, borrowed, "borrow error though no datum of the subtree is exclusively borrowed"),
        Err(false) => fail(t, "the event stream of a tree was refused by the builder".into()),
        Ok((x, kind, keep)) => {
            check!(t, !borrowed, "no borrow error though a datum of the subtree is exclusively borrowed");
            let all = same_tree(t, "collected tree", &m, n, &x, Some(true));
            if !bs.as_ref().is_some_and(|b| b.ex.iter().any(|_| true)) {
                let eq = lib(t | C17, || x == f.h[n]);
                check!(t | C17, eq, "the collected tree differs from the source");
            }
            independent(src, t, "collected tree", &f, &m, n, &x, &all, kind);
            // A second round gives the same stream.
            let again: Vec<It> = lib(t, || {
                let y = &x;
                let skip = usize::from(kind == 0 && y.num_children() > m.nodes[n].children.len());
                if skip == 1 {
                    Vec::new()
                } else {
                    y.to_events()
                        .take(want.len() + 1)
                        .map(|e| match it_of(&e) {
                            It::Open(_, v) => It::Open(None, v),
                            o => o,
                        })
                        .collect()
                }
            });
            if !again.is_empty() {
                let w: Vec<It> = want
                    .iter()
                    .map(|i| match i {
                        It::Open(_, v) => It::Open(None, *v),
                        o => *o,
                    })
                    .collect();
                check!(t, again == w, "second round: {}, expected {}", show(&again), show(&w));
            }
            lib(t | C05, || {
                drop(all);
                drop(keep);
                drop(x);
            });
        }
    }
    let after = f.tr.live();
    check!(
        t,
        after == before,
        "data left over or lost after the collected tree was dropped: {} live, before {}",
        after.len(),
        before.len()
    );
    // The source is as it was.
    let hh: Vec<Option<Node<D>>> = f.h.iter().map(|x| Some(x.clone())).collect();
    nav::check_tree(&m, 0, &hh, t, false, false);
    drop(bs);
    for (i, x) in f.h.iter().enumerate() {
        lib(t, || {
            let d = x.borrow_data();
            check!(
                t,
                d.id == m.nodes[i].did && d.val == m.nodes[i].val,
                "datum of n{i} of the source changed"
            );
        });
    }
}

#[allow(dead_code)]
enum Keep {
    None,
    Frozen(FrozenNode<D>),
    Hot(HotNode<D>),
    Tree(Tree<D>),
}

// ------------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum R {
    Ok,
    NotOpened,
    Closed,
    Borrow,
}

fn r_of(r: Result<(), TreeBuildError>) -> R {
    match r {
        Ok(()) => R::Ok,
        Err(TreeBuildError::RootNotOpened) => R::NotOpened,
        Err(TreeBuildError::RootClosed) => R::Closed,
        Err(TreeBuildError::BorrowData(_)) => R::Borrow,
    }
}

/// What a stack of open nodes does.
struct BM {
    m: Model,
    /// Root of what is built, if there is one.
    root: Option<usize>,
    /// Open nodes.
    stack: Vec<usize>,
    /// Set once a close of more nodes than are open was rejected: which of them it closed is not
    /// documented.
    lost: bool,
}

impl BM {
    fn open(&mut self, did: u32, val: u32) -> R {
        match self.root {
            None => {
                let n = self.m.new_tree(did, val);
                self.root = Some(n);
                self.stack.push(n);
                R::Ok
            }
            Some(_) => match self.stack.last() {
                None => R::Closed,
                Some(p) => {
                    let n = self.m.create(Pos::Last(*p), did, val);
                    self.stack.push(n);
                    R::Ok
                }
            },
        }
    }
    fn close(&mut self, k: usize) -> R {
        if k == 0 {
            return R::Ok;
        }
        if self.root.is_none() {
            return R::NotOpened;
        }
        if k > self.stack.len() {
            if !self.stack.is_empty() {
                self.lost = true;
            }
            return R::Closed;
        }
        let n = self.stack.len() - k;
        self.stack.truncate(n);
        R::Ok
    }
}

enum Ev {
    Open(D),
    Close(usize),
}

fn gen_ev(src: &mut Src, b: &BM, tr: &std::rc::Rc<crate::data::Tracker>, pending: isize) -> Ev {
    let depth = (b.stack.len() as isize + pending).max(0) as usize;
    if src.chance(5, 8) {
        Ev::Open(tr.make(src.draw(5) as u32))
    } else {
        let k = match src.draw(12) {
            0 => 0,
            1..=5 => 1,
            6 | 7 => 1 + src.draw(depth.saturating_sub(1).max(1)),
            8 if src.chance(1, 3) => depth,
            8 | 9 => 2,
            10 => {
                if src.chance(1, 3) {
                    depth + 1
                } else {
                    depth.saturating_sub(1)
                }
            }
            _ => {
                if src.chance(1, 8) {
                    match src.draw(3) {
                        // A valid number plus what a narrower number would not hold.
                        1 => (1 << [8, 16, 31, 32, 63][src.draw(5)]) + src.draw(depth + 2),
                        _ => usize::MAX - src.draw(2),
                    }
                } else {
                    1
                }
            }
        };
        Ev::Close(k)
    }
}

fn to_event(e: Ev) -> Event<D> {
    match e {
        Ev::Open(d) => Event::Open(d),
        Ev::Close(k) => Event::Close(k),
    }
}

pub fn c15(src: &mut Src) {
    let t = C15;
    let on_existing = src.chance(1, 2);
    let lim = Lim {
        small: if on_existing { 8 } else { 3 },
        big: 20,
        one_in: 20,
        vals: 5,
    };
    // Also the source of traversal events.
    let f = Fix::new(src, &lim);
    let start = if on_existing { Some(src.draw(f.h.len())) } else { None };
    class(match start {
        None => "new tree",
        Some(0) => "on an existing root",
        Some(_) => "on an existing inner node",
    });
    let mut b = BM {
        m: match start {
            Some(_) => f.m.clone(),
            None => Model::default(),
        },
        root: start,
        stack: start.into_iter().collect(),
        lost: false,
    };
    // A second tree, whose nodes are used as traversal events.
    let other = Fix::new(
        src,
        &Lim {
            small: 4,
            big: 4,
            one_in: 30,
            vals: 5,
        },
    );
    let mut om = other.m.clone();
    let held = if src.chance(1, 3) {
        Some(borrow_some(src, &other, &mut om))
    } else {
        None
    };
    let max = if src.chance(1, 10) { 60 } else { 14 };
    let steps = 1 + src.draw(max);
    let mut rejected = 0u32;
    // Some streams are collected directly instead of being pushed step by step.
    if start.is_none() && src.chance(1, 4) {
        collect_case(src, &f, b, steps);
        return;
    }
    let mut tb: TreeBuilder<D> = lib(t, || match start {
        Some(n) => TreeBuilder::with_root(f.hot(n)),
        None => {
            if src.chance(1, 2) {
                TreeBuilder::new()
            } else {
                TreeBuilder::default()
            }
        }
    });
    log(|| format!("builder on {start:?}"));
    for _ in 0..steps {
        if src.exhausted() {
            break;
        }
        // A closed root rejects everything; that needs few repetitions.
        if b.root.is_some() && b.stack.is_empty() && src.chance(3, 5) {
            break;
        }
        src.mark();
        let how = src.weighted(&[4, 3, 3, 1, 1]);
        let (got, want) = match how {
            0 => match gen_ev(src, &b, &f.tr, 0) {
                Ev::Open(d) => {
                    log(|| format!("open <{}:{}>", d.id, d.val));
                    let w = b.open(d.id, d.val);
                    (lib(t, || r_of(tb.open(d))), w)
                }
                Ev::Close(k) => {
                    log(|| format!("close {k}"));
                    let w = b.close(k);
                    (lib(t, || r_of(tb.close(k))), w)
                }
            },
            1 => {
                let e = gen_ev(src, &b, &f.tr, 0);
                let w = match &e {
                    Ev::Open(d) => b.open(d.id, d.val),
                    Ev::Close(k) => b.close(*k),
                };
                log(|| match &e {
                    Ev::Open(d) => format!("push_event open <{}:{}>", d.id, d.val),
                    Ev::Close(k) => format!("push_event close {k}"),
                });
                (lib(t, || r_of(tb.push_event(to_event(e)))), w)
            }
            2 => {
                let n = src.draw(6);
                let mut w = R::Ok;
                let mut evs = Vec::new();
                let mut text = String::new();
                let mut pend = 0isize;
                for _ in 0..n {
                    let e = gen_ev(src, &b, &f.tr, if w == R::Ok { 0 } else { pend });
                    match &e {
                        Ev::Open(d) => {
                            text.push_str(&format!(" open <{}:{}>", d.id, d.val));
                            pend += 1;
                            if w == R::Ok {
                                w = b.open(d.id, d.val);
                            }
                        }
                        Ev::Close(k) => {
                            text.push_str(&format!(" close {k}"));
                            pend = pend.saturating_sub_unsigned(*k);
                            if w == R::Ok {
                                w = b.close(*k);
                            }
                        }
                    }
                    pend = pend.clamp(-3, 5);
                    evs.push(to_event(e));
                }
                log(|| format!("push_events{text}"));
                (lib(t, || r_of(tb.push_events(evs))), w)
            }
            3 => {
                // A single traversal event.
                let x = src.draw(other.h.len());
                let open = src.chance(1, 2);
                log(|| format!("push_dft_event of n{x} of another tree, open {open}"));
                let w = if open {
                    if om.nodes[x].xb {
                        R::Borrow
                    } else {
                        let v = om.nodes[x].val;
                        b.open(u32::MAX, v)
                    }
                } else {
                    b.close(1)
                };
                let n = other.h[x].clone();
                let e = if open { DftEvent::Open(n) } else { DftEvent::Close(n) };
                (lib(t, || r_of(tb.push_dft_event(e))), w)
            }
            _ => {
                let x = src.draw(other.h.len());
                log(|| format!("push_dft_events of the subtree of n{x} of another tree"));
                let mut w = R::Ok;
                for (open, y, _) in evs_of(&om, x) {
                    w = if open {
                        if om.nodes[y].xb {
                            R::Borrow
                        } else {
                            let v = om.nodes[y].val;
                            b.open(u32::MAX, v)
                        }
                    } else {
                        b.close(1)
                    };
                    if w != R::Ok {
                        break;
                    }
                }
                (
                    lib(t, || r_of(tb.push_dft_events(other.h[x].depth_first_traverse()))),
                    w,
                )
            }
        };
        check!(t, got == want, "the builder answered {got:?}, a stack of open nodes answers {want:?}");
        if want != R::Ok {
            rejected += 1;
        }
        lib(t, || {
            check!(
                t,
                tb.is_root_available() == b.root.is_some(),
                "is_root_available() is {}",
                tb.is_root_available()
            );
            if !b.lost {
                check!(
                    t,
                    tb.is_root_closed() == (b.root.is_some() && b.stack.is_empty()),
                    "is_root_closed() is {} with {} open nodes",
                    tb.is_root_closed(),
                    b.stack.len()
                );
            }
        });
        if b.lost {
            class("closed more than was open");
            break;
        }
    }
    if b.m.nodes.len() >= 3 {
        nontrivial();
    }
    if rejected > 0 {
        class("with a rejected event");
    }
    let opt = src.chance(1, 3);
    let open_left = b.stack.len();
    class(if open_left == 0 && b.root.is_some() { "finished closed" } else { "finished while open or empty" });
    log(|| format!("finish (opt {opt})"));
    let got: Result<Node<D>, R> = lib(t, || {
        if opt {
            tb.finish_opt().ok_or(R::NotOpened)
        } else {
            tb.finish().map_err(|e| r_of(Err(e)))
        }
    });
    match (got, b.root) {
        (Err(R::NotOpened), None) => {}
        (Err(e), None) => fail(t, format!("finish gave {e:?}, expected RootNotOpened")),
        (Err(e), Some(_)) => fail(t, format!("finish gave {e:?} though the root was opened")),
        (Ok(_), None) => fail(t, "finish gave a node though none was opened".into()),
        (Ok(x), Some(r)) => {
            check_built(&f, &b, start, r, x);
        }
    }
    drop(held);
}

fn evs_of(m: &Model, n: usize) -> Vec<(bool, usize, usize)> {
    let mut v = Vec::new();
    let mut st = vec![(true, n)];
    while let Some((open, x)) = st.pop() {
        v.push((open, x, 0));
        if open {
            st.push((false, x));
            st.extend(m.nodes[x].children.iter().rev().map(|c| (true, *c)));
        }
    }
    v
}

fn check_built(f: &Fix, b: &BM, start: Option<usize>, r: usize, x: Node<D>) {
    let t = C15;
    let what = "built tree";
    match start {
        None => {
            let all = same_tree(t, what, &known(&b.m), r, &x, None);
            ids(t, &b.m, r, &all);
            let order = b.m.subtree(r);
            let mut h: Vec<Option<Node<D>>> = vec![None; b.m.nodes.len()];
            for (i, n) in order.iter().zip(all) {
                h[*i] = Some(n);
            }
            nav::check_tree(&b.m, 0, &h, t, false, false);
            lib(t, || {
                check!(t, x.is_root(), "the finished node is not the root of its tree");
                check!(
                    t,
                    x.tree().prohibit_hierarchy_edit().is_ok(),
                    "the tree is still locked after the builder is gone"
                );
            });
        }
        Some(n) => {
            check!(
                t,
                lib(t, || x.ptr_eq(&f.h[n])),
                "finish() of a builder on n{n} gave another node"
            );
            let root = lib(t, || f.h[0].clone());
            let all = same_tree(t, what, &known(&b.m), 0, &root, None);
            ids(t, &b.m, 0, &all);
            let order = b.m.subtree(0);
            let mut h: Vec<Option<Node<D>>> = vec![None; b.m.nodes.len()];
            for (i, n) in order.iter().zip(all) {
                h[*i] = Some(n);
            }
            for (i, o) in f.h.iter().enumerate() {
                check!(
                    t,
                    lib(t, || h[i].as_ref().is_some_and(|x| x.ptr_eq(o))),
                    "n{i} of the existing tree is not where it was"
                );
            }
            nav::check_tree(&b.m, 0, &h, t, false, false);
        }
    }
}

fn known(m: &Model) -> Model {
    m.clone()
}

/// Data identities, where the datum was handed over (and not cloned by the builder).
fn ids(t: Tags, m: &Model, top: usize, all: &[Node<D>]) {
    for (i, x) in m.subtree(top).iter().zip(all) {
        let did = m.nodes[*i].did;
        if did != u32::MAX {
            let got = lib(t, || x.borrow_data().id);
            check!(t, got == did, "n{i} holds datum #{got}, expected #{did}");
        }
    }
}

/// `collect` of an arbitrary event list: like pushing until the first error, then finishing.
fn collect_case(src: &mut Src, f: &Fix, mut b: BM, steps: usize) {
    let t = C15;
    let mut want = R::Ok;
    let mut evs = Vec::new();
    let mut text = String::new();
    for _ in 0..steps {
        src.mark();
        let mut e = gen_ev(src, &b, &f.tr, 0);
        if b.stack.is_empty() && b.root.is_some() && !src.chance(1, 6) {
            // Mostly stay well-formed.
            e = Ev::Close(0);
        }
        match &e {
            Ev::Open(d) => {
                text.push_str(&format!(" open <{}:{}>", d.id, d.val));
                if want == R::Ok {
                    want = b.open(d.id, d.val);
                }
            }
            Ev::Close(k) => {
                text.push_str(&format!(" close {k}"));
                if want == R::Ok {
                    want = b.close(*k);
                }
            }
        }
        evs.push(to_event(e));
    }
    if want == R::Ok && b.root.is_none() {
        want = R::NotOpened;
    }
    if evs.len() >= 3 {
        nontrivial();
    }
    let way = src.draw(4);
    class("events collected");
    log(|| format!("collect (way {way}){text}"));
    let before = f.tr.live().len();
    let n_data = evs.iter().filter(|e| matches!(e, Event::Open(_))).count();
    let got: Result<(Node<D>, Keep), R> = lib(t, || {
        match way {
            0 => evs
                .into_iter()
                .collect::<Result<Node<D>, _>>()
                .map(|x| (x, Keep::None)),
            1 => evs
                .into_iter()
                .collect::<Result<FrozenNode<D>, _>>()
                .map(|x| (x.plain(), Keep::Frozen(x))),
            2 => evs
                .into_iter()
                .collect::<Result<HotNode<D>, _>>()
                .map(|x| (x.plain(), Keep::Hot(x))),
            _ => evs
                .into_iter()
                .collect::<Result<Tree<D>, _>>()
                .map(|x| (x.root(), Keep::Tree(x))),
        }
        .map_err(|e| r_of(Err(e)))
    });
    match (got, want) {
        (Ok((x, keep)), R::Ok) => {
            drop(keep);
            check_built(f, &b, None, b.root.unwrap(), x);
        }
        (Err(g), w) => check!(t, g == w, "collect gave {g:?}, a stack of open nodes gives {w:?}"),
        (Ok(_), w) => fail(t, format!("collect succeeded, a stack of open nodes gives {w:?}")),
    }
    let live = f.tr.live().len();
    check!(
        t,
        live + n_data == before,
        "{} data left over or lost after the result was dropped",
        live as i64 + n_data as i64 - before as i64
    );
}
