//! Node data with an identity: every construction, clone and drop is tracked.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

use dendron::{Node, NodeWeak, TreeWeak};

use crate::cb::user_code;
use crate::cx::{burn, set_scope, C06};

pub type Did = u32;

/// What a destructor of user data expects from weak references.
pub struct Watch {
    pub nodes: Vec<WatchNode>,
    pub trees: Vec<WatchTree>,
    /// Tree (after the operation) each datum belongs to, for data of trees that die in it.
    pub dying: Vec<Option<usize>>,
}

pub struct WatchNode {
    pub weak: NodeWeak<D>,
    pub did: Did,
    pub alive_after: bool,
    pub tree_after: usize,
}

pub struct WatchTree {
    pub weak: TreeWeak<D>,
    pub tid: usize,
    pub alive_after: bool,
}

#[derive(Default)]
pub struct Tracker {
    /// 0 = never made, 1 = live, 2 = dropped.
    pub state: RefCell<Vec<u8>>,
    pub error: RefCell<Option<String>>,
    pub weak_error: RefCell<Option<String>>,
    pub watch: RefCell<Option<Rc<Watch>>>,
    pub drops: Cell<u64>,
    pub hook_runs: Cell<u64>,
    pub clones: Cell<u64>,
}

impl Tracker {
    pub fn new() -> Rc<Self> {
        Rc::new(Self::default())
    }
    pub fn alloc(&self) -> Did {
        let mut s = self.state.borrow_mut();
        s.push(1);
        (s.len() - 1) as Did
    }
    pub fn make(self: &Rc<Self>, val: u32) -> D {
        D {
            id: self.alloc(),
            val,
            origin: None,
            tr: self.clone(),
            extra: RefCell::new(Vec::new()),
            text: None,
        }
    }
    pub fn is_live(&self, did: Did) -> bool {
        self.state.borrow()[did as usize] == 1
    }
    pub fn live(&self) -> Vec<Did> {
        self.state
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, s)| **s == 1)
            .map(|(i, _)| i as Did)
            .collect()
    }
}

/// The node data.
pub struct D {
    pub id: Did,
    pub val: u32,
    pub origin: Option<Did>,
    pub tr: Rc<Tracker>,
    /// Handles to other nodes owned by this datum (a datum may own other trees).
    pub extra: RefCell<Vec<Node<D>>>,
    /// What the datum prints, if not its identity.
    pub text: Option<Rc<Text>>,
}

/// What a datum prints: (display, debug) each for the plain and the alternate form.
#[derive(Default)]
pub struct Text {
    pub s: [String; 4],
    /// Number of characters written at a time (0: all at once).
    pub cut: usize,
}

impl Text {
    pub fn form(&self, debug: bool, alternate: bool) -> &str {
        &self.s[usize::from(debug) * 2 + usize::from(alternate)]
    }
    fn write(&self, s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.cut == 0 {
            return f.write_str(s);
        }
        let c: Vec<char> = s.chars().collect();
        for (i, p) in c.chunks(self.cut).enumerate() {
            if p.len() == 1 && i % 2 == 0 {
                fmt::Write::write_char(f, p[0])?;
            } else {
                let t: String = p.iter().collect();
                write!(f, "{t}{}", "")?;
            }
        }
        Ok(())
    }
}

thread_local! {
    static BOMB: Cell<u64> = const { Cell::new(0) };
    static DROP_BOMB: Cell<Option<Did>> = const { Cell::new(None) };
}
pub const BOMB_MSG: &str = "user code panics";

/// The `k`-th call of user code (clone, eq, fmt, iterator) from now on panics (0: none).
pub fn set_bomb(k: u64) {
    BOMB.with(|b| b.set(k));
}
/// The destructor of this datum panics.
pub fn set_drop_bomb(d: Option<Did>) {
    DROP_BOMB.with(|b| b.set(d));
}
pub fn tick(what: &str) {
    user_code(what);
    if crate::cb::busy() {
        return;
    }
    let now = BOMB.with(|b| {
        let v = b.get();
        b.set(v.saturating_sub(1));
        v
    });
    if now == 1 {
        panic!("{BOMB_MSG}");
    }
}

impl Clone for D {
    fn clone(&self) -> Self {
        burn();
        tick("clone");
        self.tr.clones.set(self.tr.clones.get() + 1);
        D {
            id: self.tr.alloc(),
            val: self.val,
            origin: Some(self.id),
            tr: self.tr.clone(),
            extra: RefCell::new(Vec::new()),
            text: None,
        }
    }
}

impl PartialEq for D {
    fn eq(&self, o: &Self) -> bool {
        burn();
        tick("eq");
        self.val == o.val
    }
}
impl Eq for D {}

impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        burn();
        tick("Debug::fmt");
        if let Some(t) = &self.text {
            return t.write(t.form(true, f.alternate()), f);
        }
        write!(f, "<{}:{}>", self.id, self.val)
    }
}

impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        burn();
        tick("Display::fmt");
        if let Some(t) = &self.text {
            return t.write(t.form(false, f.alternate()), f);
        }
        write!(f, "<{}:{}>", self.id, self.val)
    }
}

impl Drop for D {
    fn drop(&mut self) {
        let tr = self.tr.clone();
        {
            let mut s = tr.state.borrow_mut();
            let st = &mut s[self.id as usize];
            if *st != 1 {
                *tr.error.borrow_mut() = Some(format!("datum #{} dropped twice", self.id));
            }
            *st = 2;
        }
        tr.drops.set(tr.drops.get() + 1);
        user_code("a destructor");
        let watch = tr.watch.borrow().clone();
        if let Some(w) = watch {
            // Panics of the library in here are about weak references.
            let old = set_scope(C06);
            tr.hook_runs.set(tr.hook_runs.get() + 1);
            let my_tree = w.dying.get(self.id as usize).copied().flatten();
            let report = |m: String| {
                let mut e = tr.weak_error.borrow_mut();
                if e.is_none() {
                    *e = Some(format!("in the destructor of datum #{}: {m}", self.id));
                }
            };
            for n in &w.nodes {
                let up = n.weak.upgrade();
                match (&up, n.alive_after) {
                    (None, true) => report(format!(
                        "weak reference to the live node with datum #{} did not upgrade",
                        n.did
                    )),
                    (Some(_), false) if my_tree == Some(n.tree_after) => report(format!(
                        "weak reference to the node with datum #{} of the same dead tree upgraded",
                        n.did
                    )),
                    _ => {}
                }
                if let Some(h) = &up {
                    if let Ok(d) = h.try_borrow_data() {
                        if d.id != n.did {
                            report(format!(
                                "weak reference to the node with datum #{} upgraded to the node with datum #{}",
                                n.did, d.id
                            ));
                        }
                    };
                }
                drop(up);
            }
            for t in &w.trees {
                let up = t.weak.upgrade();
                match (up.is_some(), t.alive_after) {
                    (false, true) => report(format!(
                        "weak reference to the live tree t{} did not upgrade",
                        t.tid
                    )),
                    (true, false) if my_tree == Some(t.tid) => {
                        report(format!("weak reference to the dead tree t{} upgraded", t.tid))
                    }
                    _ => {}
                }
                drop(up);
            }
            set_scope(old);
        }
        if DROP_BOMB.with(|b| b.get()) == Some(self.id) && !std::thread::panicking() {
            DROP_BOMB.with(|b| b.set(None));
            panic!("{BOMB_MSG}");
        }
    }
}

/// Data of another type that compares with `D`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct O(pub u32);

impl PartialEq<O> for D {
    fn eq(&self, o: &O) -> bool {
        burn();
        user_code("eq");
        self.val == o.0
    }
}
