//! C17: equality of subtrees and trees.

use dendron::{FrozenNode, HotNode, Node};

use crate::check;
use crate::choice::Src;
use crate::cx::*;
use crate::data::{D, O};
use crate::fixture::{model, shape, Fix, Lim};
use crate::model::{Model, Pos};
use crate::serial::borrow_some;

fn same(a: &Model, x: usize, b: &Model, y: usize) -> bool {
    let mut st = vec![(x, y)];
    while let Some((x, y)) = st.pop() {
        let (p, q) = (&a.nodes[x], &b.nodes[y]);
        if p.val != q.val || p.children.len() != q.children.len() {
            return false;
        }
        st.extend(p.children.iter().copied().zip(q.children.iter().copied()));
    }
    true
}

/// Shape and values of the subtree with ids in preorder.
fn flat(m: &Model, top: usize) -> (Vec<Option<usize>>, Vec<u32>) {
    let order = m.subtree(top);
    let mut pos = std::collections::HashMap::new();
    let mut s = Vec::new();
    let mut v = Vec::new();
    for (i, x) in order.iter().enumerate() {
        pos.insert(*x, i);
        s.push(if *x == top {
            None
        } else {
            Some(pos[&m.nodes[*x].parent.unwrap()])
        });
        v.push(m.nodes[*x].val);
    }
    (s, v)
}

/// A small change of the tree; returns its name.
fn mutate(src: &mut Src, m: &mut Model) -> &'static str {
    let all = m.subtree(m.trees[0].root);
    let x = all[src.draw(all.len())];
    match src.draw(9) {
        0 => "identical",
        1 => {
            m.nodes[x].val ^= 1;
            "one datum changed"
        }
        2 => {
            let v = src.draw(3) as u32;
            let pos = if src.chance(1, 2) { Pos::First(x) } else { Pos::Last(x) };
            m.create(pos, 0, v);
            "one node added"
        }
        3 => {
            // Remove a leaf.
            if m.nodes[x].children.is_empty() && m.nodes[x].parent.is_some() {
                m.unlink(x);
                return "one leaf removed";
            }
            "identical"
        }
        4 => {
            // The last child becomes the next sibling of its parent: same preorder data.
            if let Some(p) = m.nodes[x].parent {
                if m.nodes[p].parent.is_some() && m.nodes[p].children.last() == Some(&x) {
                    m.unlink(x);
                    m.insert(x, Pos::Next(p));
                    return "last child raised";
                }
            }
            "identical"
        }
        5 => {
            // A node becomes the last child of its previous sibling.
            if m.nodes[x].parent.is_some() {
                let i = m.index(x);
                if i > 0 {
                    let p = m.nodes[x].parent.unwrap();
                    let s = m.nodes[p].children[i - 1];
                    m.unlink(x);
                    m.insert(x, Pos::Last(s));
                    return "node lowered";
                }
            }
            "identical"
        }
        6 => {
            if let Some(p) = m.nodes[x].parent {
                let k = m.nodes[p].children.len();
                let (i, j) = (src.draw(k), src.draw(k));
                m.nodes[p].children.swap(i, j);
                return "siblings swapped";
            }
            "identical"
        }
        7 => {
            // A node between another one and its children.
            let v = m.nodes[x].val;
            m.interrupt_child(x, 0, v);
            "level added"
        }
        _ => {
            let y = all[src.draw(all.len())];
            let v = m.nodes[x].val;
            m.nodes[x].val = m.nodes[y].val;
            m.nodes[y].val = v;
            "data swapped"
        }
    }
}

enum Side {
    N(Node<D>),
    F(FrozenNode<D>),
    H(HotNode<D>),
}

fn side(f: &Fix, n: usize, k: usize) -> Side {
    match k {
        0 => Side::N(f.h[n].clone()),
        1 => Side::F(f.frozen(n)),
        _ => Side::H(f.hot(n)),
    }
}

/// The result of `==` (or of the negation of `!=`), `Err` if it panicked.
fn op_eq(a: &Side, b: &Side, form: usize) -> Result<bool, String> {
    use Side::*;
    macro_rules! diff {
        ($a:expr, $b:expr) => {
            match form {
                0 => $a == $b,
                1 => !($a != $b),
                2 => *$a == $b,
                _ => $a == *$b,
            }
        };
    }
    macro_rules! alike {
        ($a:expr, $b:expr) => {
            if form % 2 == 0 {
                $a == $b
            } else {
                !($a != $b)
            }
        };
    }
    may_panic(|| match (a, b) {
        (N(a), N(b)) => alike!(a, b),
        (F(a), F(b)) => alike!(a, b),
        (H(a), H(b)) => alike!(a, b),
        (N(a), F(b)) => diff!(a, b),
        (F(a), N(b)) => diff!(a, b),
        (N(a), H(b)) => diff!(a, b),
        (H(a), N(b)) => diff!(a, b),
        (F(a), H(b)) => diff!(a, b),
        (H(a), F(b)) => diff!(a, b),
    })
}

pub fn c17(src: &mut Src) {
    let t = C17;
    let lim = Lim {
        small: 8,
        big: 24,
        one_in: 14,
        vals: 2,
    };
    // A base tree, and a variant of it; either may be a subtree of a larger tree.
    let tr = crate::data::Tracker::new();
    let s = shape(src, &lim);
    let lim_vals = if src.chance(1, 3) { 0 } else { 2 };
    let (base, d) = model(src, &s, &Lim { vals: lim_vals, ..lim }, &tr);
    drop(d);
    let mut var = base.clone();
    let mut what = mutate(src, &mut var);
    if src.chance(1, 6) {
        what = mutate(src, &mut var);
    }
    class(what);
    let embed = |src: &mut Src, m: &Model| -> (Vec<Option<usize>>, Vec<u32>, usize) {
        let (s, v) = flat(m, m.trees[0].root);
        if src.chance(1, 2) {
            return (s, v, 0);
        }
        // root, `k` leaves, the subtree, `j` leaves
        let (k, j) = (src.draw(3), src.draw(3));
        let mut os = vec![None];
        let mut ov = vec![src.draw(2) as u32];
        for _ in 0..k {
            os.push(Some(0));
            ov.push(src.draw(2) as u32);
        }
        let at = os.len();
        for (p, v) in s.iter().zip(&v) {
            os.push(Some(p.map_or(0, |p| p + at)));
            ov.push(*v);
        }
        for _ in 0..j {
            os.push(Some(0));
            ov.push(src.draw(2) as u32);
        }
        (os, ov, at)
    };
    let (sa, va, mut a) = embed(src, &base);
    let (sb, vb, mut b) = embed(src, &var);
    log(|| format!("variant: {what}"));
    let fa = Fix::of(src, tr.clone(), &sa, &va);
    let one_tree = src.chance(1, 5);
    let other = if one_tree {
        None
    } else {
        Some(Fix::of(src, tr.clone(), &sb, &vb))
    };
    let fb = other.as_ref().unwrap_or(&fa);
    if one_tree {
        class("nodes of one tree");
        a = src.draw(fa.h.len());
        b = src.draw(fa.h.len());
        if src.chance(1, 4) {
            b = a;
        }
    } else if src.chance(1, 8) {
        a = src.draw(fa.h.len());
        b = src.draw(fb.h.len());
    }
    let mut ma = fa.m.clone();
    let mut mb = fb.m.clone();
    let (ha, hb) = if src.chance(1, 3) {
        let x = borrow_some(src, &fa, &mut ma);
        let y = if one_tree {
            mb = ma.clone();
            None
        } else {
            Some(borrow_some(src, fb, &mut mb))
        };
        (Some(x), y)
    } else {
        (None, None)
    };
    let want = same(&ma, a, &mb, b);
    let involved = |x: usize, y: usize| {
        ma.subtree(x).iter().any(|n| ma.nodes[*n].xb)
            || mb.subtree(y).iter().any(|n| mb.nodes[*n].xb)
    };
    let ex = involved(a, b);
    if ma.subtree(a).len() + mb.subtree(b).len() >= 4 {
        nontrivial();
    }
    class(match (want, ex) {
        (true, false) => "equal",
        (false, false) => "different",
        (true, true) => "equal, with an exclusive borrow",
        (false, true) => "different, with an exclusive borrow",
    });
    log(|| {
        format!(
            "compare {} (n{a} of {}) with {} (n{b} of {}), values {:?} and {:?}; expect {want}, exclusive borrows involved: {ex}",
            ma.show(a),
            ma.show_all(),
            mb.show(b),
            mb.show_all(),
            ma.subtree(a).iter().map(|x| ma.nodes[*x].val).collect::<Vec<_>>(),
            mb.subtree(b).iter().map(|x| mb.nodes[*x].val).collect::<Vec<_>>()
        )
    });
    let judge = |what: &str, got: Result<bool, String>, want: bool, ex: bool| match got {
        Ok(g) => check!(t, g == want, "{what} is {g}, expected {want}"),
        Err(e) => check!(
            t,
            ex,
            "{what} failed ({e}) though no involved datum is exclusively borrowed"
        ),
    };
    let (na, nb) = (&fa.h[a], &fb.h[b]);
    lib(t, || {
        let g = na.try_eq(nb).map_err(|e| e.to_string());
        judge("try_eq", g, want, ex);
        let g = nb.try_eq(na).map_err(|e| e.to_string());
        judge("try_eq (sides exchanged)", g, want, ex);
        let k = src.draw(3);
        let k2 = if one_tree { k } else { src.draw(3) };
        // Within one tree the lock allows plain plus one of the other kinds.
        let (k, k2) = if one_tree && src.chance(1, 2) { (k, 0) } else { (k, k2) };
        let (x, y) = (side(&fa, a, k), side(fb, b, k2));
        let form = src.draw(4);
        log(|| format!("operator form {form} on handle kinds {k}, {k2}"));
        judge("==", op_eq(&x, &y, form), want, ex);
        judge("== (sides exchanged)", op_eq(&y, &x, form), want, ex);
        // Reflexive.
        let exa = involved_one(&ma, a);
        judge("x == x", op_eq(&x, &x, form), true, exa);
        let g = na.try_eq(na).map_err(|e| e.to_string());
        judge("x.try_eq(x)", g, true, exa);
    });
    // Whole trees.
    let (ra, rb) = (0, 0);
    let want = same(&ma, ra, &mb, rb);
    let ex = involved(ra, rb);
    lib(t, || {
        let (x, y) = (fa.h[a].tree(), fb.h[b].tree());
        let g = x.try_eq(&y).map_err(|e| e.to_string());
        judge("Tree::try_eq", g, want, ex);
        let g = y.try_eq(&x).map_err(|e| e.to_string());
        judge("Tree::try_eq (sides exchanged)", g, want, ex);
        judge("Tree ==", may_panic(|| x == y), want, ex);
        judge("Tree !=", may_panic(|| !(y != x)), want, ex);
    });
    // Data of different types.
    if src.chance(1, 4) {
        let (s, v) = flat(&mb, b);
        lib(t, || {
            let mut h: Vec<HotNode<O>> = Vec::new();
            for (p, v) in s.iter().zip(&v) {
                let n = match p {
                    None => HotNode::new_tree(O(*v)),
                    Some(p) => h[*p].create_as_last_child(O(*v)),
                };
                h.push(n);
            }
            let r = h[0].plain();
            let want = same(&ma, a, &mb, b);
            let ex = involved_one(&ma, a);
            let g = na.try_eq(&r).map_err(|e| e.to_string());
            judge("try_eq with data of another type", g, want, ex);
            judge("== with data of another type", may_panic(|| *na == r), want, ex);
            judge("== with a hot node with data of another type", may_panic(|| *na == h[0]), want, ex);
            let whole = same(&ma, 0, &mb, b);
            let g = na.tree().try_eq(&r.tree()).map_err(|e| e.to_string());
            judge("Tree::try_eq with data of another type", g, whole, involved_one(&ma, 0));
        });
    }
    drop((ha, hb));
    // Nothing was changed or left borrowed by comparing.
    for (f, m) in [(&fa, &ma), (fb, &mb)] {
        for (i, x) in f.h.iter().enumerate() {
            lib(t, || {
                let d = x.try_borrow_data_mut();
                match d {
                    Ok(d) => check!(
                        t,
                        d.id == m.nodes[i].did && d.val == m.nodes[i].val,
                        "comparing changed the datum of n{i}"
                    ),
                    Err(_) => fail(t, format!("comparing left the datum of n{i} borrowed")),
                }
            });
        }
    }
}

fn involved_one(m: &Model, n: usize) -> bool {
    m.subtree(n).iter().any(|x| m.nodes[*x].xb)
}
