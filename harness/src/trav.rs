//! C11, C12, C13: every traverser against the event lists of the reference model.

use std::iter::FusedIterator;

use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::{FrozenNode, HotNode, Node};

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::data::D;
use crate::fixture::{Fix, Lim};

/// What a traverser yields, in terms of the model: open (or not applicable), node, depth.
type Item = (bool, usize, usize);

/// One traverser under test.
trait Subject: Clone {
    fn fwd(&mut self, f: &Fix) -> Option<Item>;
    fn bwd(&mut self, _f: &Fix) -> Option<Item> {
        unreachable!()
    }
    fn nth_f(&mut self, f: &Fix, k: usize) -> Option<Item>;
    fn nth_b(&mut self, _f: &Fix, _k: usize) -> Option<Item> {
        unreachable!()
    }
    /// `None`: the traverser cannot peek.
    fn peek_f(&self, f: &Fix) -> Option<Option<Item>>;
    fn peek_b(&self, _f: &Fix) -> Option<Option<Item>> {
        None
    }
    fn hint(&self) -> (usize, Option<usize>);
    /// `None`: not supported.
    fn close(&mut self, _f: &Fix) -> Option<Option<Item>> {
        None
    }
    /// Everything that is left, through the consuming adapters of the standard library.
    fn rest(self, f: &Fix, how: usize, max: usize) -> Vec<Item>;
    fn misc(&mut self, _k: usize) {}
    const DOUBLE: bool;
}

fn ev_node(f: &Fix, e: &DftEvent<Node<D>>) -> Item {
    match e {
        DftEvent::Open(n) => (true, f.id(n), 0),
        DftEvent::Close(n) => (false, f.id(n), 0),
    }
}
fn ev_frozen(f: &Fix, e: &DftEvent<FrozenNode<D>>) -> Item {
    match e {
        DftEvent::Open(n) => (true, f.id(&n.plain()), 0),
        DftEvent::Close(n) => (false, f.id(&n.plain()), 0),
    }
}
fn ev_depth(f: &Fix, e: &DftEvent<(FrozenNode<D>, usize)>) -> Item {
    match e {
        DftEvent::Open((n, d)) => (true, f.id(&n.plain()), *d),
        DftEvent::Close((n, d)) => (false, f.id(&n.plain()), *d),
    }
}
fn it_node(f: &Fix, n: &Node<D>) -> Item {
    (true, f.id(n), 0)
}
fn it_frozen(f: &Fix, n: &FrozenNode<D>) -> Item {
    (true, f.id(&n.plain()), 0)
}
fn it_depth(f: &Fix, n: &(FrozenNode<D>, usize)) -> Item {
    (true, f.id(&n.0.plain()), n.1)
}

fn fused<I: FusedIterator>(i: I) -> I {
    i
}

macro_rules! single {
    ($ty:ident, $conv:expr, peek: $peek:expr, close: $close:expr, misc: $misc:expr) => {
        impl Subject for $ty<D> {
            fn fwd(&mut self, f: &Fix) -> Option<Item> {
                self.next().map(|e| $conv(f, &e))
            }
            fn nth_f(&mut self, f: &Fix, k: usize) -> Option<Item> {
                self.nth(k).map(|e| $conv(f, &e))
            }
            fn peek_f(&self, f: &Fix) -> Option<Option<Item>> {
                let p: fn(&$ty<D>, &Fix) -> Option<Option<Item>> = $peek;
                p(self, f)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.size_hint()
            }
            fn close(&mut self, f: &Fix) -> Option<Option<Item>> {
                let c: fn(&mut $ty<D>, &Fix) -> Option<Option<Item>> = $close;
                c(self, f)
            }
            fn rest(self, f: &Fix, how: usize, max: usize) -> Vec<Item> {
                // Bounded, so that a traverser that never ends fails instead of hanging.
                let it = self.take(max);
                match how % 3 {
                    0 => it.map(|e| $conv(f, &e)).collect(),
                    1 => it.fold(Vec::new(), |mut v, e| {
                        v.push($conv(f, &e));
                        v
                    }),
                    _ => {
                        let mut v = Vec::new();
                        for e in it {
                            v.push($conv(f, &e));
                        }
                        v
                    }
                }
            }
            fn misc(&mut self, k: usize) {
                let m: fn(&mut $ty<D>, usize) = $misc;
                m(self, k)
            }
            const DOUBLE: bool = false;
        }
    };
}

single!(DepthFirstTraverser, ev_node,
    peek: |s, f| Some(s.peek().map(|e| ev_node(f, e))),
    close: |s, f| Some(s.close_current().map(|n| (false, f.id(&n), 0))),
    misc: |_, _| ());
single!(ReverseDepthFirstTraverser, ev_node,
    peek: |s, f| Some(s.peek().map(|e| ev_node(f, e))), close: |_, _| None, misc: |_, _| ());
single!(SiblingsTraverser, it_node,
    peek: |s, f| Some(s.peek().map(|e| it_node(f, e))), close: |_, _| None, misc: |_, _| ());
single!(ReverseSiblingsTraverser, it_node,
    peek: |s, f| Some(s.peek().map(|e| it_node(f, e))), close: |_, _| None, misc: |_, _| ());
single!(AncestorsTraverser, it_node,
    peek: |s, f| Some(s.peek().map(|e| it_node(f, e))), close: |_, _| None, misc: |_, _| ());
single!(NonAllocatingBreadthFirstTraverser, it_depth,
    peek: |_, _| None, close: |_, _| None, misc: |_, _| ());
single!(AllocatingBreadthFirstTraverser, it_depth,
    peek: |s, f| Some(s.peek().map(|e| it_depth(f, &e))), close: |_, _| None,
    misc: |s, k| match k % 3 {
        0 => s.shrink_to_fit(),
        1 => s.shrink_to(k),
        _ => { let _ = s.capacity(); }
    });

macro_rules! double {
    ($ty:ident, $conv:expr, close: $close:expr) => {
        impl Subject for $ty<D> {
            fn fwd(&mut self, f: &Fix) -> Option<Item> {
                self.next().map(|e| $conv(f, &e))
            }
            fn bwd(&mut self, f: &Fix) -> Option<Item> {
                self.next_back().map(|e| $conv(f, &e))
            }
            fn nth_f(&mut self, f: &Fix, k: usize) -> Option<Item> {
                self.nth(k).map(|e| $conv(f, &e))
            }
            fn nth_b(&mut self, f: &Fix, k: usize) -> Option<Item> {
                self.nth_back(k).map(|e| $conv(f, &e))
            }
            fn peek_f(&self, f: &Fix) -> Option<Option<Item>> {
                Some(self.peek().map(|e| $conv(f, e)))
            }
            fn peek_b(&self, f: &Fix) -> Option<Option<Item>> {
                Some(self.peek_back().map(|e| $conv(f, e)))
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.size_hint()
            }
            fn close(&mut self, f: &Fix) -> Option<Option<Item>> {
                let c: fn(&mut $ty<D>, &Fix) -> Option<Option<Item>> = $close;
                c(self, f)
            }
            fn rest(self, f: &Fix, how: usize, max: usize) -> Vec<Item> {
                match how % 5 {
                    0 => self.take(max).map(|e| $conv(f, &e)).collect(),
                    1 => {
                        let mut v: Vec<Item> =
                            self.rev().take(max).map(|e| $conv(f, &e)).collect();
                        v.reverse();
                        v
                    }
                    2 => self.take(max).fold(Vec::new(), |mut v, e| {
                        v.push($conv(f, &e));
                        v
                    }),
                    3 => {
                        let mut v = Vec::new();
                        let _ = self.rev().try_for_each(|e| {
                            v.push($conv(f, &e));
                            if v.len() < max {
                                Some(())
                            } else {
                                None
                            }
                        });
                        v.reverse();
                        v
                    }
                    _ => {
                        let mut it = fused(self);
                        let mut v = Vec::new();
                        while let Some(e) = it.next() {
                            v.push($conv(f, &e));
                            if v.len() >= max {
                                break;
                            }
                        }
                        v
                    }
                }
            }
            const DOUBLE: bool = true;
        }
    };
}

double!(StableDepthFirstTraverser, ev_frozen,
    close: |s, f| Some(s.close_current().map(|n| (false, f.id(&n.plain()), 0))));
double!(StableShallowDepthFirstTraverser, ev_depth,
    close: |s, f| Some(s.close_current().map(|(n, d)| (false, f.id(&n.plain()), d))));
double!(StableSiblingsTraverser, it_frozen, close: |_, _| None);

fn show(v: &[Item]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(40)
        .map(|i| format!("{}n{}@{}", if i.0 { "+" } else { "-" }, i.1 as i64, i.2))
        .collect();
    s.join(" ")
}

/// Position after `close_current` in the remaining items, and the item it returns.
fn ref_close(rest: &[Item]) -> (usize, Option<Item>) {
    let mut d = 0usize;
    for (i, e) in rest.iter().enumerate() {
        if e.0 {
            d += 1;
        } else if d == 0 {
            return (i + 1, Some(*e));
        } else {
            d -= 1;
        }
    }
    (rest.len(), None)
}

/// Drives one traverser through a random schedule of operations.
fn drive<S: Subject>(src: &mut Src, f: &Fix, tags: Tags, what: &str, mut s: S, want: &[Item], closes: bool) {
    let (mut a, mut b) = (0usize, want.len());
    let max = want.len() + 3;
    let full = || show(want);
    lib(tags, || {
        let mode = src.draw(4);
        log(|| format!("drive {what} over {} items, schedule {mode}", want.len()));
        if mode == 0 {
            let how = src.draw(5);
            let got = s.clone().rest(f, how, max);
            check!(
                tags,
                got == want,
                "{what}: collected (way {how}) {}, expected {}",
                show(&got),
                full()
            );
        }
        let mut steps = 0;
        let mut trace = String::new();
        let bad = |op: &str, got: Option<Item>, exp: Option<Item>, trace: &str, a: usize, b: usize| {
            if got != exp {
                fail(
                    tags,
                    format!(
                        "{what}: after [{trace}] {op} gave {}, expected {} (remaining {}..{} of {})",
                        show(got.as_slice()),
                        show(exp.as_slice()),
                        a,
                        b,
                        show(want)
                    ),
                );
            }
        };
        let mut extra = 2;
        loop {
            let (lo, hi) = s.hint();
            let left = b - a;
            check!(
                tags,
                lo <= left && hi.map_or(true, |h| h >= left),
                "{what}: after [{trace}] size_hint is ({lo}, {hi:?}) but {left} items are left of {}",
                full()
            );
            if let Some(p) = s.peek_f(f) {
                bad("peek", p, want[a..b].first().copied(), &trace, a, b);
            }
            if let Some(p) = s.peek_b(f) {
                bad("peek_back", p, want[a..b].last().copied(), &trace, a, b);
            }
            if left == 0 {
                // Fused: nothing more may come, from either end.
                if extra == 0 {
                    break;
                }
                extra -= 1;
            }
            steps += 1;
            if steps > 400 {
                break;
            }
            let op = match mode {
                1 => 0,
                2 if S::DOUBLE => 1,
                3 if S::DOUBLE => src.draw(2),
                _ => *src.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6]),
            };
            match op {
                1 if S::DOUBLE => {
                    let e = want[a..b].last().copied();
                    let g = s.bwd(f);
                    bad("next_back", g, e, &trace, a, b);
                    b = b.saturating_sub(1).max(a);
                    trace.push('b');
                }
                2 => {
                    let k = src.draw(3);
                    let e = want[a..b].get(k).copied();
                    let g = s.nth_f(f, k);
                    bad("nth", g, e, &trace, a, b);
                    a = (a + k + 1).min(b);
                    trace.push_str(&format!("n{k}"));
                }
                3 if S::DOUBLE => {
                    let k = src.draw(3);
                    let e = want[a..b].iter().rev().nth(k).copied();
                    let g = s.nth_b(f, k);
                    bad("nth_back", g, e, &trace, a, b);
                    b = b.saturating_sub(k + 1).max(a);
                    trace.push_str(&format!("N{k}"));
                }
                4 => {
                    // A clone goes its own way and leaves the original alone.
                    let how = src.draw(5);
                    let got = s.clone().rest(f, how, max);
                    check!(
                        tags,
                        got == want[a..b],
                        "{what}: after [{trace}] a clone collected (way {how}) {}, expected {}",
                        show(&got),
                        show(&want[a..b])
                    );
                    trace.push('c');
                }
                5 if closes => {
                    let (k, e) = ref_close(&want[a..b]);
                    if let Some(g) = s.close(f) {
                        bad("close_current", g, e, &trace, a, b);
                        a += k;
                        trace.push('x');
                    }
                }
                6 => s.misc(src.draw(6)),
                _ => {
                    let e = want[a..b].first().copied();
                    let g = s.fwd(f);
                    bad("next", g, e, &trace, a, b);
                    a = (a + 1).min(b);
                    trace.push('f');
                }
            }
        }
        finger(hash(&trace));
    });
}

fn hash(s: &str) -> u64 {
    crate::choice::hash_str(s)
}

fn nodes(v: impl IntoIterator<Item = usize>) -> Vec<Item> {
    v.into_iter().map(|n| (true, n, 0)).collect()
}

fn strip(v: &[Item]) -> Vec<Item> {
    v.iter().map(|e| (e.0, e.1, 0)).collect()
}

macro_rules! via {
    ($src:expr, $f:expr, $n:expr, $x:ident => $body:expr) => {
        match $src.draw(3) {
            0 => {
                let $x = &$f.h[$n];
                $body
            }
            1 => {
                let fr = lib(C08, || $f.frozen($n));
                let $x = &fr;
                $body
            }
            _ => {
                let ho = lib(C08, || $f.hot($n));
                let $x = &ho;
                $body
            }
        }
    };
}

pub fn c11(src: &mut Src) {
    let f = Fix::new(src, &Lim::default());
    let t = C11;
    for _ in 0..1 + src.draw(3) {
        src.mark();
        let n = src.draw(f.h.len());
        let ev = strip(&f.events(n));
        let (sib, i) = f.siblings(n);
        let ch = f.m.nodes[n].children.clone();
        if f.h.len() > 2 {
            nontrivial();
        }
        let kind = src.draw(20);
        finger((n * 32 + kind) as u64);
        set_scope(t);
        match kind {
            0 | 1 => {
                class("depth-first");
                let it = via!(src, f, n, x => x.depth_first_traverse());
                drive(src, &f, t, &format!("depth_first_traverse of n{n}"), it, &ev, true);
            }
            2 => {
                class("reverse depth-first");
                let it = via!(src, f, n, x => x.depth_first_reverse_traverse());
                let mut w = ev;
                w.reverse();
                drive(src, &f, t, &format!("depth_first_reverse_traverse of n{n}"), it, &w, false);
            }
            3 => {
                class("depth-first from an event");
                let k = src.draw(ev.len());
                let e = event(&f, ev[k]);
                let it = DepthFirstTraverser::with_next_event(f.h[n].clone(), Some(e));
                drive(src, &f, t, &format!("with_next_event({n}, {k})"), it, &ev[k..], true);
            }
            4 => {
                class("reverse depth-first from an event");
                let k = src.draw(ev.len());
                let e = event(&f, ev[k]);
                let it = ReverseDepthFirstTraverser::with_next_event(f.h[n].clone(), Some(e));
                let mut w = ev[..=k].to_vec();
                w.reverse();
                drive(src, &f, t, &format!("reverse with_next_event({n}, {k})"), it, &w, false);
            }
            5 => {
                class("constructors");
                let none = src.chance(1, 3);
                let x = if none { None } else { Some(f.h[n].clone()) };
                let mut w = if none { vec![] } else { ev };
                if src.chance(1, 2) {
                    let it = DepthFirstTraverser::with_start(x);
                    drive(src, &f, t, "with_start", it, &w, true);
                } else {
                    let it = ReverseDepthFirstTraverser::with_start(x);
                    w.reverse();
                    drive(src, &f, t, "reverse with_start", it, &w, false);
                }
                drive(src, &f, t, "with_next_event(None)", DepthFirstTraverser::with_next_event(f.h[n].clone(), None), &[], true);
                drive(src, &f, t, "reverse with_next_event(None)", ReverseDepthFirstTraverser::with_next_event(f.h[n].clone(), None), &[], false);
                drive(src, &f, t, "siblings None", SiblingsTraverser::new(None), &[], false);
                drive(src, &f, t, "siblings reverse None", ReverseSiblingsTraverser::new(None), &[], false);
                drive(src, &f, t, "ancestors None", AncestorsTraverser::new(None), &[], false);
                drive(src, &f, t, "siblings Some", SiblingsTraverser::new(Some(f.h[n].clone())), &nodes(sib[i..].iter().copied()), false);
                drive(src, &f, t, "siblings reverse Some", ReverseSiblingsTraverser::new(Some(f.h[n].clone())), &nodes(sib[..=i].iter().rev().copied()), false);
                drive(src, &f, t, "ancestors Some", AncestorsTraverser::new(Some(f.h[n].clone())), &nodes(f.ancestors(n)), false);
            }
            6 => {
                let it = via!(src, f, n, x => x.children());
                drive(src, &f, t, &format!("children of n{n}"), it, &nodes(ch), false);
            }
            7 => {
                let it = via!(src, f, n, x => x.children_reverse());
                drive(src, &f, t, &format!("children_reverse of n{n}"), it, &nodes(ch.into_iter().rev()), false);
            }
            8 => {
                let it = via!(src, f, n, x => x.ancestors());
                drive(src, &f, t, &format!("ancestors of n{n}"), it, &nodes(f.ancestors(n).into_iter().skip(1)), false);
            }
            9 => {
                let it = via!(src, f, n, x => x.ancestors_or_self());
                drive(src, &f, t, &format!("ancestors_or_self of n{n}"), it, &nodes(f.ancestors(n)), false);
            }
            10 => {
                let it = via!(src, f, n, x => x.siblings());
                drive(src, &f, t, &format!("siblings of n{n}"), it, &nodes(sib), false);
            }
            11 => {
                let it = via!(src, f, n, x => x.siblings_reverse());
                drive(src, &f, t, &format!("siblings_reverse of n{n}"), it, &nodes(sib.into_iter().rev()), false);
            }
            12 => {
                let it = via!(src, f, n, x => x.preceding_siblings_or_self_reverse());
                drive(src, &f, t, &format!("preceding_siblings_or_self_reverse of n{n}"), it, &nodes(sib[..=i].iter().rev().copied()), false);
            }
            13 => {
                let it = via!(src, f, n, x => x.preceding_siblings_reverse());
                drive(src, &f, t, &format!("preceding_siblings_reverse of n{n}"), it, &nodes(sib[..i].iter().rev().copied()), false);
            }
            14 => {
                let it = via!(src, f, n, x => x.following_siblings_or_self());
                drive(src, &f, t, &format!("following_siblings_or_self of n{n}"), it, &nodes(sib[i..].iter().copied()), false);
            }
            15 => {
                let it = via!(src, f, n, x => x.following_siblings());
                drive(src, &f, t, &format!("following_siblings of n{n}"), it, &nodes(sib[i + 1..].iter().copied()), false);
            }
            16 | 17 | 18 => events(src, &f),
            _ => adapters(src, &f, n),
        }
        set_scope(0);
    }
}

fn event(f: &Fix, e: Item) -> DftEvent<Node<D>> {
    if e.0 {
        DftEvent::Open(f.h[e.1].clone())
    } else {
        DftEvent::Close(f.h[e.1].clone())
    }
}

/// `next`, `prev` and `close_current` of single events.
fn events(src: &mut Src, f: &Fix) {
    class("events");
    let all = strip(&f.events(0));
    let ty = src.draw(3);
    let few = all.len().min(30);
    for _ in 0..few {
        let k = src.draw(all.len());
        let next = all.get(k + 1).copied();
        let prev = if k > 0 { Some(all[k - 1]) } else { None };
        let close = ref_close(&all[k + 1..]).1.map(|e| e.1);
        let (gn, gp, gc) = match ty {
            0 => {
                let e = event(f, all[k]);
                (
                    e.next().map(|e| ev_node(f, &e)),
                    e.prev().map(|e| ev_node(f, &e)),
                    e.close_current().map(|n| f.id(&n)),
                )
            }
            1 => {
                let e = event(f, all[k]).map(|n| f.frozen(f.id(&n)));
                (
                    e.next().map(|e| ev_frozen(f, &e)),
                    e.prev().map(|e| ev_frozen(f, &e)),
                    e.close_current().map(|n| f.id(&n.plain())),
                )
            }
            _ => {
                let e = event(f, all[k]).map(|n| f.hot(f.id(&n)));
                let c = |e: DftEvent<HotNode<D>>| ev_node(f, &e.map(|n| n.plain()));
                (
                    e.next().map(c),
                    e.prev().map(c),
                    e.close_current().map(|n| f.id(&n.plain())),
                )
            }
        };
        check!(
            C11,
            gn == next && gp == prev && gc == close,
            "event {}: next {}, prev {}, close_current {gc:?}; expected {}, {}, {close:?}",
            show(&[all[k]]),
            show(gn.as_slice()),
            show(gp.as_slice()),
            show(next.as_slice()),
            show(prev.as_slice())
        );
    }
}

/// Accessors of events.
fn adapters(src: &mut Src, f: &Fix, n: usize) {
    class("event accessors");
    let open = src.chance(1, 2);
    let mk = || event(f, (open, n, 0));
    let id = |x: &Node<D>| f.id(x);
    let mut ok = id(&mk().into_value()) == n && id(mk().as_value()) == n;
    let mut e = mk();
    ok &= id(e.as_value_mut()) == n;
    *e.as_value_mut() = f.h[0].clone();
    ok &= ev_node(f, &e) == (open, 0, 0);
    ok &= mk().into_open().map(|x| id(&x)) == open.then_some(n);
    ok &= mk().into_close().map(|x| id(&x)) == (!open).then_some(n);
    let m = mk().map(|x| (f.id(&x), 5));
    ok &= match m {
        DftEvent::Open(v) => open && v == (n, 5),
        DftEvent::Close(v) => !open && v == (n, 5),
    };
    check!(C11, ok, "accessors of the event {} disagree", show(&[(open, n, 0)]));
}

pub fn c12(src: &mut Src) {
    let f = Fix::new(src, &Lim::default());
    let t = C12;
    for _ in 0..1 + src.draw(3) {
        src.mark();
        let n = src.draw(f.h.len());
        let ev = strip(&f.events(n));
        let (sib, i) = f.siblings(n);
        if f.h.len() > 2 {
            nontrivial();
        }
        let kind = src.draw(14);
        finger((n * 32 + kind) as u64);
        let x = lib(C08, || f.frozen(n));
        set_scope(t);
        match kind {
            0..=2 => {
                class("stable depth-first");
                let it = x.depth_first_traverse_stable();
                drive(src, &f, t, &format!("depth_first_traverse_stable of n{n}"), it, &ev, true);
            }
            3 | 4 => {
                class("stable depth-first between events");
                let a = src.draw(ev.len());
                let b = a + src.draw(ev.len() - a);
                let fe = |e: Item| event(&f, e).map(|n| f.frozen(f.id(&n)));
                let it = StableDepthFirstTraverser::with_first_last_event(fe(ev[a]), fe(ev[b]));
                drive(src, &f, t, &format!("with_first_last_event of n{n} events {a}..={b}"), it, &ev[a..=b], true);
            }
            5 => {
                let some = src.chance(2, 3);
                let y = if some { Some(x.clone()) } else { None };
                let it = StableDepthFirstTraverser::with_toplevel(y.clone());
                drive(src, &f, t, "with_toplevel", it, if some { &ev } else { &[] }, true);
                let it = StableSiblingsTraverser::with_parent(y);
                let w = if some { nodes(f.m.nodes[n].children.clone()) } else { vec![] };
                drive(src, &f, t, "with_parent", it, &w, false);
            }
            6 | 7 => {
                class("stable children");
                let w = nodes(f.m.nodes[n].children.clone());
                drive(src, &f, t, &format!("children_stable of n{n}"), x.children_stable(), &w, false);
            }
            8 | 9 => {
                class("stable siblings");
                drive(src, &f, t, &format!("siblings_stable of n{n}"), x.siblings_stable(), &nodes(sib), false);
            }
            10 => {
                class("stable preceding siblings");
                drive(src, &f, t, &format!("preceding_siblings_or_self_stable of n{n}"), x.preceding_siblings_or_self_stable(), &nodes(sib[..=i].iter().copied()), false);
            }
            11 => {
                class("stable preceding siblings");
                drive(src, &f, t, &format!("preceding_siblings_stable of n{n}"), x.preceding_siblings_stable(), &nodes(sib[..i].iter().copied()), false);
            }
            12 => {
                class("stable following siblings");
                drive(src, &f, t, &format!("following_siblings_or_self_stable of n{n}"), x.following_siblings_or_self_stable(), &nodes(sib[i..].iter().copied()), false);
            }
            _ => {
                class("stable following siblings");
                drive(src, &f, t, &format!("following_siblings_stable of n{n}"), x.following_siblings_stable(), &nodes(sib[i + 1..].iter().copied()), false);
            }
        }
        set_scope(0);
    }
}

pub fn c13(src: &mut Src) {
    let f = Fix::new(src, &Lim::default());
    let t = C13;
    for _ in 0..1 + src.draw(3) {
        src.mark();
        let n = src.draw(f.h.len());
        let ev = f.events(n);
        let height = ev.iter().map(|e| e.2).max().unwrap();
        if f.h.len() > 2 {
            nontrivial();
        }
        let x = lib(C08, || f.frozen(n));
        set_scope(t);
        let kind = src.draw(10);
        let depth = match src.draw(8) {
            0 => usize::MAX,
            1 => usize::MAX - 1,
            2 => height,
            3 => height + 1,
            _ => src.draw(height + 3),
        };
        finger((n * 32 + kind) as u64 ^ (depth as u64) << 20);
        match kind {
            0..=3 => {
                let max = if src.chance(1, 8) { None } else { Some(depth) };
                class(if max.is_some_and(|m| m < height) {
                    "depth-limited, limit cuts"
                } else {
                    "depth-limited, limit does not cut"
                });
                let it = if src.chance(1, 4) {
                    let some = src.chance(3, 4);
                    if !some {
                        let it = StableShallowDepthFirstTraverser::with_toplevel(None, max);
                        drive(src, &f, t, "shallow with_toplevel(None)", it, &[], true);
                    }
                    StableShallowDepthFirstTraverser::with_toplevel(Some(x), max)
                } else {
                    x.shallow_depth_first_traverse_stable(max)
                };
                let m = max.unwrap_or(usize::MAX);
                check!(t, it.max_depth() == m, "max_depth of limit {max:?} is {}", it.max_depth());
                let w: Vec<Item> = ev.into_iter().filter(|e| e.2 <= m).collect();
                drive(src, &f, t, &format!("shallow_depth_first_traverse_stable({max:?}) of n{n}"), it, &w, true);
            }
            4..=6 => {
                class("breadth-first, not allocating");
                let w: Vec<Item> = f.levels(n).into_iter().filter(|e| e.1 >= depth).map(|e| (true, e.0, e.1)).collect();
                let it = if src.chance(1, 3) {
                    NonAllocatingBreadthFirstTraverser::with_toplevel(x, depth)
                } else {
                    x.non_allocating_breadth_first_traverse_stable(depth)
                };
                drive(src, &f, t, &format!("non_allocating_breadth_first_traverse_stable({depth}) of n{n}"), it, &w, false);
            }
            _ => {
                class("breadth-first, allocating");
                let w: Vec<Item> = f.levels(n).into_iter().filter(|e| e.1 >= depth).map(|e| (true, e.0, e.1)).collect();
                let it = if src.chance(1, 3) {
                    AllocatingBreadthFirstTraverser::with_toplevel(x, depth)
                } else {
                    x.allocating_breadth_first_traverse_stable(depth)
                };
                drive(src, &f, t, &format!("allocating_breadth_first_traverse_stable({depth}) of n{n}"), it, &w, false);
            }
        }
        set_scope(0);
    }
}
