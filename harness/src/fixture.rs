//! Trees of random shape, put together through different parts of the API.

use std::rc::Rc;

use dendron::serial::TreeBuilder;
use dendron::{FrozenNode, HotNode, InsertAs, Node};

use crate::choice::Src;
use crate::cx::*;
use crate::data::{Tracker, D};
use crate::model::{Model, Pos};
use crate::nav;

pub struct Fix {
    pub m: Model,
    pub tr: Rc<Tracker>,
    /// Plain handle of each model node (the tree has id 0).
    pub h: Vec<Node<D>>,
}

/// One in this many trees is a little larger than what 8 bits count.
const HUGE: usize = 500;

pub struct Lim {
    pub small: usize,
    pub big: usize,
    /// One in `one_in` cases is big.
    pub one_in: usize,
    /// Number of different values of the data (0: all different).
    pub vals: usize,
}

impl Default for Lim {
    fn default() -> Self {
        Lim {
            small: 11,
            big: 50,
            one_in: 12,
            vals: 0,
        }
    }
}

/// A random shape: the children of each node, node 0 is the root, ids in preorder.
pub fn shape(src: &mut Src, lim: &Lim) -> Vec<Option<usize>> {
    let style = src.draw(7);
    let huge = src.chance(1, HUGE);
    let n = if huge {
        258 + src.draw(40)
    } else if src.chance(1, lim.one_in) {
        lim.small + src.draw(lim.big)
    } else {
        src.draw(lim.small)
    };
    // Parents by creation order, then renumbered in preorder.
    let mut par: Vec<Option<usize>> = vec![None];
    for i in 0..n {
        let p = match style {
            _ if huge => [i, 0, i - i % 2, i / 2][style % 4],
            0 | 5 | 6 => src.draw(i + 1),
            1 => i,
            2 => 0,
            3 => i - src.draw(3.min(i + 1)),
            _ => src.draw(i + 1) / 2,
        };
        par.push(Some(p));
    }
    let mut ch: Vec<Vec<usize>> = vec![Vec::new(); par.len()];
    for (i, p) in par.iter().enumerate() {
        if let Some(p) = p {
            ch[*p].push(i);
        }
    }
    let mut out: Vec<Option<usize>> = Vec::new();
    let mut st = vec![(0usize, None)];
    while let Some((x, p)) = st.pop() {
        let me = out.len();
        out.push(p);
        for c in ch[x].iter().rev() {
            st.push((*c, Some(me)));
        }
    }
    out
}

/// The model of a shape (ids in preorder).
pub fn model(src: &mut Src, shape: &[Option<usize>], lim: &Lim, tr: &Rc<Tracker>) -> (Model, Vec<D>) {
    let mut m = Model::default();
    let mut data = Vec::new();
    for (i, p) in shape.iter().enumerate() {
        let v = if lim.vals == 0 {
            i as u32
        } else {
            src.draw(lim.vals) as u32
        };
        let d = tr.make(v);
        match p {
            None => {
                m.new_tree(d.id, v);
            }
            Some(p) => {
                m.create(Pos::Last(*p), d.id, v);
            }
        }
        data.push(d);
    }
    (m, data)
}

pub const STRATEGIES: usize = 8;

/// Builds the tree of the model with the given strategy; returns a hot handle of every node.
pub fn build(src: &mut Src, m: &Model, data: Vec<D>, strategy: usize) -> Vec<HotNode<D>> {
    let n = m.nodes.len();
    let mut data: Vec<Option<D>> = data.into_iter().map(Some).collect();
    let mut h: Vec<Option<HotNode<D>>> = Vec::new();
    h.resize_with(n, || None);
    macro_rules! d {
        ($i:expr) => {
            data[$i].take().unwrap()
        };
    }
    match strategy {
        // In document order, each as the last child.
        0 => {
            h[0] = Some(HotNode::new_tree(d!(0)));
            for i in 1..n {
                let p = m.nodes[i].parent.unwrap();
                h[i] = Some(h[p].as_ref().unwrap().create_as_last_child(d!(i)));
            }
        }
        // In reverse order of siblings, each as the first child.
        1 => {
            h[0] = Some(HotNode::new_tree(d!(0)));
            let mut st = vec![0];
            while let Some(p) = st.pop() {
                for c in m.nodes[p].children.iter().rev() {
                    h[*c] = Some(h[p].as_ref().unwrap().create_as_first_child(d!(*c)));
                    st.push(*c);
                }
            }
        }
        // Parents first, siblings in random order next to those that are already there.
        2 | 7 => {
            h[0] = Some(HotNode::new_tree(d!(0)));
            let mut ready: Vec<usize> = m.nodes[0].children.clone();
            while !ready.is_empty() {
                let k = src.draw(ready.len());
                let c = ready.swap_remove(k);
                ready.extend(m.nodes[c].children.iter());
                let p = m.nodes[c].parent.unwrap();
                let sib = &m.nodes[p].children;
                let i = m.index(c);
                let before = sib[..i].iter().rev().find(|s| h[**s].is_some()).copied();
                let after = sib[i + 1..].iter().find(|s| h[**s].is_some()).copied();
                let dd = d!(c);
                let x = match (before, after) {
                    (Some(b), Some(a)) => {
                        if src.chance(1, 2) {
                            h[b].as_ref().unwrap().create_as_next_sibling(dd)
                        } else {
                            h[a].as_ref().unwrap().create_as_prev_sibling(dd)
                        }
                    }
                    (Some(b), None) => {
                        if src.chance(1, 2) {
                            h[b].as_ref().unwrap().create_as_next_sibling(dd)
                        } else {
                            h[p].as_ref().unwrap().create_as_last_child(dd)
                        }
                    }
                    (None, Some(a)) => {
                        if src.chance(1, 2) {
                            h[a].as_ref().unwrap().create_as_prev_sibling(dd)
                        } else {
                            h[p].as_ref().unwrap().create_as_first_child(dd)
                        }
                    }
                    (None, None) => h[p].as_ref().unwrap().create_as_last_child(dd),
                };
                h[c] = Some(x);
            }
        }
        // Everything below the root in random order, then moved into place within the tree.
        3 => {
            h[0] = Some(HotNode::new_tree(d!(0)));
            let mut order: Vec<usize> = (1..n).collect();
            shuffle(src, &mut order);
            for i in &order {
                h[*i] = Some(h[0].as_ref().unwrap().create_as_last_child(d!(*i)));
            }
            for i in 1..n {
                let p = m.nodes[i].parent.unwrap();
                let k = m.index(i);
                let dest = if k == 0 {
                    InsertAs::FirstChildOf(h[p].as_ref().unwrap())
                } else if src.chance(1, 2) {
                    InsertAs::NextSiblingOf(h[m.nodes[p].children[k - 1]].as_ref().unwrap())
                } else if p != 0 {
                    InsertAs::LastChildOf(h[p].as_ref().unwrap())
                } else {
                    InsertAs::NextSiblingOf(h[m.nodes[p].children[k - 1]].as_ref().unwrap())
                };
                h[i].as_ref().unwrap().detach_insert_subtree(dest);
            }
        }
        // Separate trees joined in random order.
        4 => {
            for i in 0..n {
                h[i] = Some(HotNode::new_tree(d!(i)));
            }
            let mut order: Vec<usize> = (1..n).collect();
            shuffle(src, &mut order);
            let mut placed = vec![false; n];
            for i in order {
                let p = m.nodes[i].parent.unwrap();
                let sib = &m.nodes[p].children;
                let k = m.index(i);
                let before = sib[..k].iter().rev().find(|s| placed[**s]).copied();
                let after = sib[k + 1..].iter().find(|s| placed[**s]).copied();
                let dest = match (before, after) {
                    (Some(b), _) => InsertAs::NextSiblingOf(h[b].as_ref().unwrap()),
                    (None, Some(a)) => InsertAs::PreviousSiblingOf(h[a].as_ref().unwrap()),
                    (None, None) => InsertAs::FirstChildOf(h[p].as_ref().unwrap()),
                };
                h[i].as_ref().unwrap().detach_insert_subtree(dest);
                placed[i] = true;
            }
        }
        // The tree builder.
        5 => {
            let mut b = TreeBuilder::new();
            let mut depth = 0usize;
            for i in 0..n {
                let want = m.depth(i);
                if i > 0 && depth > want {
                    let _ = b.close(depth - want);
                }
                let _ = b.open(d!(i));
                depth = want + 1;
            }
            let _ = b.close(depth);
            let r = match b.finish() {
                Ok(r) => r,
                Err(_) => fail(C15, "builder refused a well-formed sequence".into()),
            };
            let r = match r.bundle_new_hierarchy_edit_grant() {
                Ok(r) => r,
                Err(_) => fail(C08, "new tree refuses a grant".into()),
            };
            walk(m, r, &mut h);
        }
        // Some nodes made by interrupting, some surplus nodes replaced by their children.
        _ => {
            h[0] = Some(HotNode::new_tree(d!(0)));
            let mut st = vec![0];
            while let Some(p) = st.pop() {
                let ch = m.nodes[p].children.clone();
                if ch.is_empty() {
                    continue;
                }
                let px = h[p].as_ref().unwrap().clone();
                match src.draw(3) {
                    0 => {
                        // A surplus parent above all children.
                        let tmp = px.create_as_last_child(d_tmp(&px));
                        for c in &ch {
                            h[*c] = Some(tmp.create_as_last_child(d!(*c)));
                        }
                        tmp.replace_with_children();
                    }
                    1 => {
                        // A surplus node interrupting below `p` first.
                        for c in ch.iter() {
                            h[*c] = Some(px.create_as_last_child(d!(*c)));
                        }
                        let tmp = px.create_as_interrupting_child(d_tmp(&px));
                        tmp.replace_with_children();
                    }
                    _ => {
                        // A surplus node first, removed at the end.
                        let tmp = px.create_as_first_child(d_tmp(&px));
                        for c in ch.iter().rev() {
                            h[*c] = Some(tmp.create_as_next_sibling(d!(*c)));
                        }
                        tmp.detach_subtree();
                    }
                }
                st.extend(ch);
            }
        }
    }
    h.into_iter().map(|x| x.unwrap()).collect()
}

/// Datum of a node that is not part of the final tree.
fn d_tmp(x: &HotNode<D>) -> D {
    let d = x.borrow_data();
    d.tr.make(777)
}

fn walk(m: &Model, r: HotNode<D>, h: &mut [Option<HotNode<D>>]) {
    let mut st = vec![(0usize, r)];
    while let Some((i, x)) = st.pop() {
        let mut c = x.first_child();
        for k in &m.nodes[i].children {
            match c {
                Some(y) => {
                    c = y.next_sibling();
                    st.push((*k, y));
                }
                None => fail(C01 | C15, format!("n{k} is missing")),
            }
        }
        h[i] = Some(x);
    }
}

pub fn shuffle(src: &mut Src, v: &mut [usize]) {
    for i in (1..v.len()).rev() {
        let j = src.draw(i + 1);
        v.swap(i, j);
    }
}

impl Fix {
    pub fn new(src: &mut Src, lim: &Lim) -> Fix {
        let tr = Tracker::new();
        let s = shape(src, lim);
        let (m, data) = model(src, &s, lim, &tr);
        Fix::put(src, tr, &s, m, data)
    }
    /// A tree of the given shape (ids in preorder) and values.
    pub fn of(src: &mut Src, tr: Rc<Tracker>, s: &[Option<usize>], vals: &[u32]) -> Fix {
        let mut m = Model::default();
        let mut data = Vec::new();
        for (p, v) in s.iter().zip(vals) {
            let d = tr.make(*v);
            match p {
                None => {
                    m.new_tree(d.id, *v);
                }
                Some(p) => {
                    m.create(Pos::Last(*p), d.id, *v);
                }
            }
            data.push(d);
        }
        Fix::put(src, tr, s, m, data)
    }
    pub fn put(src: &mut Src, tr: Rc<Tracker>, s: &[Option<usize>], m: Model, data: Vec<D>) -> Fix {
        let strategy = src.draw(STRATEGIES);
        finger(s.iter().fold(strategy as u64, |a, p| {
            a.wrapping_mul(31)
                .wrapping_add(p.map_or(0, |p| p as u64 + 1))
        }));
        log(|| format!("tree {} built by strategy {strategy}", m.show(0)));
        let tags = C01 | C02 | C03;
        let hot = lib(tags, || build(src, &m, data, strategy));
        let h: Vec<Node<D>> = lib(tags, || hot.iter().map(|x| x.plain()).collect());
        drop(hot);
        // The construction itself belongs to other properties: stop here if it went wrong.
        let hh: Vec<Option<Node<D>>> = h.iter().map(|x| Some(x.clone())).collect();
        nav::check_tree(&m, 0, &hh, tags, false, false);
        Fix { m, tr, h }
    }
    pub fn frozen(&self, n: usize) -> FrozenNode<D> {
        match self.h[n].clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(x) => x,
            Err(_) => fail(C08, format!("frozen handle of n{n} refused")),
        }
    }
    pub fn hot(&self, n: usize) -> HotNode<D> {
        match self.h[n].clone().bundle_new_hierarchy_edit_grant() {
            Ok(x) => x,
            Err(_) => fail(C08, format!("hot handle of n{n} refused")),
        }
    }
    pub fn id(&self, x: &Node<D>) -> usize {
        match (0..self.h.len()).find(|i| self.h[*i].ptr_eq(x)) {
            Some(i) => i,
            None => usize::MAX,
        }
    }
    /// Open and close events of the subtree, with depth relative to `n`.
    pub fn events(&self, n: usize) -> Vec<(bool, usize, usize)> {
        let mut v = Vec::new();
        self.ev(n, 0, &mut v);
        v
    }
    fn ev(&self, n: usize, d: usize, v: &mut Vec<(bool, usize, usize)>) {
        v.push((true, n, d));
        for c in &self.m.nodes[n].children {
            self.ev(*c, d + 1, v);
        }
        v.push((false, n, d));
    }
    /// Nodes in breadth-first order with depth.
    pub fn levels(&self, n: usize) -> Vec<(usize, usize)> {
        let mut v = vec![(n, 0)];
        let mut i = 0;
        while i < v.len() {
            let (x, d) = v[i];
            v.extend(self.m.nodes[x].children.iter().map(|c| (*c, d + 1)));
            i += 1;
        }
        v
    }
    pub fn siblings(&self, n: usize) -> (Vec<usize>, usize) {
        match self.m.nodes[n].parent {
            Some(p) => (self.m.nodes[p].children.clone(), self.m.index(n)),
            None => (vec![n], 0),
        }
    }
    pub fn ancestors(&self, n: usize) -> Vec<usize> {
        let mut v = vec![n];
        while let Some(p) = self.m.nodes[*v.last().unwrap()].parent {
            v.push(p);
        }
        v
    }
}
