//! Compares every navigation query of one node against the model.
#![allow(deprecated)]

use dendron::{FrozenNode, HotNode, Node};

use crate::check;
use crate::cx::*;
use crate::data::D;
use crate::model::Model;

pub struct Exp<'a> {
    pub m: &'a Model,
    /// Plain handle of each node of the tree, by model id.
    pub h: &'a [Option<Node<D>>],
    pub tags: Tags,
}

impl Exp<'_> {
    fn want(&self, what: &str, n: usize, got: Option<&Node<D>>, want: Option<usize>) {
        let ok = match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => match &self.h[w] {
                Some(h) => g.ptr_eq(h),
                None => false,
            },
            _ => false,
        };
        if !ok {
            let g = got.map(|g| {
                (0..self.h.len())
                    .find(|i| self.h[*i].as_ref().is_some_and(|h| h.ptr_eq(g)))
                    .map_or("a node outside the tree".to_string(), |i| format!("n{i}"))
            });
            fail(
                self.tags,
                format!(
                    "{what} of n{n}: got {}, expected {}; model {}",
                    g.unwrap_or("none".into()),
                    want.map_or("none".into(), |w| format!("n{w}")),
                    self.m.show_all()
                ),
            );
        }
    }
    fn wantv<V: PartialEq + std::fmt::Debug>(&self, what: &str, n: usize, got: V, want: V) {
        if got != want {
            fail(
                self.tags,
                format!(
                    "{what} of n{n}: got {got:?}, expected {want:?}; model {}",
                    self.m.show_all()
                ),
            );
        }
    }
}

macro_rules! nav_impl {
    ($fn_links:ident, $fn_rest:ident, $ty:ident, $plain:expr) => {
        /// Constant-time links only.
        pub fn $fn_links(e: &Exp<'_>, n: usize, x: &$ty<D>) {
            let pl = $plain;
            let m = &e.m.nodes[n];
            lib(e.tags | C01, || {
                let o = |v: Option<$ty<D>>| v.map(|v| pl(&v));
                let (prev, next) = match m.parent {
                    Some(p) => {
                        let sib = &e.m.nodes[p].children;
                        let i = sib.iter().position(|c| *c == n).unwrap();
                        (
                            if i > 0 { Some(sib[i - 1]) } else { None },
                            sib.get(i + 1).copied(),
                        )
                    }
                    None => (None, None),
                };
                e.want("first_child", n, o(x.first_child()).as_ref(), m.children.first().copied());
                e.want("next_sibling", n, o(x.next_sibling()).as_ref(), next);
                e.want("parent", n, o(x.parent()).as_ref(), m.parent);
                e.want("prev_sibling", n, o(x.prev_sibling()).as_ref(), prev);
                e.want("last_child", n, o(x.last_child()).as_ref(), m.children.last().copied());
            })
        }
        /// Everything else; call after the links of the whole tree were checked.
        pub fn $fn_rest(e: &Exp<'_>, n: usize, x: &$ty<D>) {
            let pl = $plain;
            let m = &e.m.nodes[n];
            lib(e.tags | C01, || {
                let alone = [n];
                let (sib, i): (&[usize], usize) = match m.parent {
                    Some(p) => {
                        let s = &e.m.nodes[p].children;
                        (s, s.iter().position(|c| *c == n).unwrap())
                    }
                    None => (&alone, 0),
                };
                let k = m.children.len();
                e.want("root", n, Some(&pl(&x.root())), Some(e.m.root_of(n)));
                e.wantv("is_root", n, x.is_root(), m.parent.is_none());
                e.want("first_sibling", n, Some(&pl(&x.first_sibling())), Some(sib[0]));
                e.want("last_sibling", n, Some(&pl(&x.last_sibling())), sib.last().copied());
                let (a, b) = x.first_last_sibling();
                e.want("first_last_sibling.0", n, Some(&pl(&a)), Some(sib[0]));
                e.want("first_last_sibling.1", n, Some(&pl(&b)), sib.last().copied());
                let fl = x.first_last_child();
                e.want(
                    "first_last_child.0",
                    n,
                    fl.as_ref().map(|v| pl(&v.0)).as_ref(),
                    m.children.first().copied(),
                );
                e.want(
                    "first_last_child.1",
                    n,
                    fl.as_ref().map(|v| pl(&v.1)).as_ref(),
                    m.children.last().copied(),
                );
                e.wantv("has_prev_sibling", n, x.has_prev_sibling(), i > 0);
                e.wantv("has_next_sibling", n, x.has_next_sibling(), i + 1 < sib.len());
                e.wantv("num_children", n, x.num_children(), k);
                e.wantv("has_children", n, x.has_children(), k > 0);
                e.wantv("has_one_child", n, x.has_one_child(), k == 1);
                e.wantv("has_multiple_children", n, x.has_multiple_children(), k > 1);
                #[allow(deprecated)]
                {
                    e.wantv("count_children", n, x.count_children(), k);
                }
                e.wantv("count_preceding_siblings", n, x.count_preceding_siblings(), i);
                e.wantv(
                    "count_following_siblings",
                    n,
                    x.count_following_siblings(),
                    sib.len() - 1 - i,
                );
                e.wantv("count_ancestors", n, x.count_ancestors(), e.m.depth(n));
            })
        }
    };
}

nav_impl!(links_node, rest_node, Node, |v: &Node<D>| v.clone());
nav_impl!(links_frozen, rest_frozen, FrozenNode, |v: &FrozenNode<D>| v.plain());
nav_impl!(links_hot, rest_hot, HotNode, |v: &HotNode<D>| v.plain());

/// Checks a whole live tree through plain handles, and optionally through the other handle types.
/// Returns plain handles of all its nodes.
pub fn check_tree(m: &Model, tid: usize, h: &[Option<Node<D>>], tags: Tags, hot: bool, frozen: bool) {
    let e = Exp { m, h, tags };
    let order = m.subtree(m.trees[tid].root);
    for n in &order {
        if let Some(x) = &h[*n] {
            links_node(&e, *n, x);
        }
    }
    for n in &order {
        if let Some(x) = &h[*n] {
            rest_node(&e, *n, x);
        }
    }
    if hot && m.frozen(tid) == 0 {
        for n in &order {
            let x = lib(C08 | tags, || h[*n].clone().map(|h| h.bundle_new_hierarchy_edit_grant()));
            if let Some(x) = x {
                check!(C08, x.is_ok(), "hot handle of n{n} refused though nothing prohibits editing");
                let x = x.unwrap();
                links_hot(&e, *n, &x);
                rest_hot(&e, *n, &x);
            }
        }
    }
    if frozen && m.hot(tid) == 0 {
        for n in &order {
            let x = lib(C08 | tags, || {
                h[*n].clone().map(|h| h.bundle_new_hierarchy_edit_prohibition())
            });
            if let Some(x) = x {
                check!(C08, x.is_ok(), "frozen handle of n{n} refused though nothing grants editing");
                let x = x.unwrap();
                links_frozen(&e, *n, &x);
                rest_frozen(&e, *n, &x);
            }
        }
    }
}
