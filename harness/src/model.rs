//! Reference model: a plain ordered forest with explicit handle counts.

use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub struct MNode {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub did: u32,
    pub val: u32,
    pub tree: usize,
    pub alive: bool,
    /// Strong references through plain, hot and frozen handles.
    pub n: usize,
    pub h: usize,
    pub f: usize,
    /// Nodes referred to (strongly) by the datum.
    pub extra: Vec<usize>,
    /// Held shared borrows and exclusive borrow of the datum.
    pub sh: usize,
    pub xb: bool,
}

#[derive(Clone, Debug)]
pub struct MTree {
    pub root: usize,
    pub alive: bool,
    pub refs: usize,
    pub g: usize,
    pub p: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub trees: Vec<MTree>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos {
    First(usize),
    Last(usize),
    Prev(usize),
    Next(usize),
}

impl Pos {
    pub fn anchor(self) -> usize {
        match self {
            Pos::First(a) | Pos::Last(a) | Pos::Prev(a) | Pos::Next(a) => a,
        }
    }
    pub fn make(kind: usize, a: usize) -> Self {
        match kind % 4 {
            0 => Pos::First(a),
            1 => Pos::Last(a),
            2 => Pos::Prev(a),
            _ => Pos::Next(a),
        }
    }
    pub fn is_sibling(self) -> bool {
        matches!(self, Pos::Prev(_) | Pos::Next(_))
    }
}

impl Model {
    pub fn new_tree(&mut self, did: u32, val: u32) -> usize {
        let tid = self.trees.len();
        let nid = self.push_node(did, val, tid);
        self.trees.push(MTree {
            root: nid,
            alive: true,
            refs: 0,
            g: 0,
            p: 0,
        });
        nid
    }
    pub fn push_node(&mut self, did: u32, val: u32, tree: usize) -> usize {
        let nid = self.nodes.len();
        self.nodes.push(MNode {
            parent: None,
            children: Vec::new(),
            did,
            val,
            tree,
            alive: true,
            n: 0,
            h: 0,
            f: 0,
            extra: Vec::new(),
            sh: 0,
            xb: false,
        });
        nid
    }
    pub fn create(&mut self, pos: Pos, did: u32, val: u32) -> usize {
        let t = self.nodes[pos.anchor()].tree;
        let nid = self.push_node(did, val, t);
        self.insert(nid, pos);
        nid
    }
    pub fn insert(&mut self, n: usize, pos: Pos) {
        let (p, at) = match pos {
            Pos::First(a) => (a, 0),
            Pos::Last(a) => (a, self.nodes[a].children.len()),
            Pos::Prev(a) => (self.nodes[a].parent.unwrap(), self.index(a)),
            Pos::Next(a) => (self.nodes[a].parent.unwrap(), self.index(a) + 1),
        };
        self.nodes[p].children.insert(at, n);
        self.nodes[n].parent = Some(p);
    }
    pub fn index(&self, n: usize) -> usize {
        let p = self.nodes[n].parent.unwrap();
        self.nodes[p].children.iter().position(|c| *c == n).unwrap()
    }
    pub fn unlink(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent {
            let i = self.index(n);
            self.nodes[p].children.remove(i);
            self.nodes[n].parent = None;
        }
    }
    pub fn subtree(&self, n: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut st = vec![n];
        while let Some(x) = st.pop() {
            out.push(x);
            st.extend(self.nodes[x].children.iter().rev());
        }
        out
    }
    pub fn in_subtree(&self, x: usize, top: usize) -> bool {
        let mut c = Some(x);
        while let Some(y) = c {
            if y == top {
                return true;
            }
            c = self.nodes[y].parent;
        }
        false
    }
    pub fn root_of(&self, n: usize) -> usize {
        self.trees[self.nodes[n].tree].root
    }
    pub fn is_root(&self, n: usize) -> bool {
        self.nodes[n].parent.is_none()
    }
    pub fn set_tree(&mut self, top: usize, tid: usize) {
        for x in self.subtree(top) {
            self.nodes[x].tree = tid;
        }
    }
    /// Makes the (unlinked) node the root of a new tree.
    pub fn make_tree(&mut self, n: usize) -> usize {
        let tid = self.trees.len();
        self.trees.push(MTree {
            root: n,
            alive: true,
            refs: 0,
            g: 0,
            p: 0,
        });
        self.set_tree(n, tid);
        tid
    }
    pub fn detach(&mut self, n: usize) {
        if self.is_root(n) {
            return;
        }
        self.unlink(n);
        self.make_tree(n);
    }
    pub fn mv(&mut self, n: usize, pos: Pos) {
        if pos == Pos::Prev(n) || pos == Pos::Next(n) {
            return;
        }
        let from = self.nodes[n].tree;
        let to = self.nodes[pos.anchor()].tree;
        let was_root = self.is_root(n);
        self.unlink(n);
        self.insert(n, pos);
        if from != to {
            self.set_tree(n, to);
            if was_root {
                self.trees[from].alive = false;
            }
        }
    }
    pub fn replace_with_children(&mut self, n: usize) {
        let ch = std::mem::take(&mut self.nodes[n].children);
        match self.nodes[n].parent {
            Some(p) => {
                let i = self.index(n);
                self.nodes[p].children.splice(i..=i, ch.iter().copied());
                for c in &ch {
                    self.nodes[*c].parent = Some(p);
                }
                self.nodes[n].parent = None;
            }
            None => {
                let t = self.nodes[n].tree;
                self.nodes[ch[0]].parent = None;
                self.trees[t].root = ch[0];
            }
        }
        self.make_tree(n);
    }
    pub fn interrupt_parent(&mut self, n: usize, did: u32, val: u32) -> usize {
        let t = self.nodes[n].tree;
        let new = self.push_node(did, val, t);
        match self.nodes[n].parent {
            Some(p) => {
                let i = self.index(n);
                self.nodes[p].children[i] = new;
                self.nodes[new].parent = Some(p);
            }
            None => self.trees[t].root = new,
        }
        self.nodes[n].parent = Some(new);
        self.nodes[new].children.push(n);
        new
    }
    pub fn interrupt_child(&mut self, n: usize, did: u32, val: u32) -> usize {
        let t = self.nodes[n].tree;
        let new = self.push_node(did, val, t);
        let ch = std::mem::replace(&mut self.nodes[n].children, vec![new]);
        for c in &ch {
            self.nodes[*c].parent = Some(new);
        }
        self.nodes[new].children = ch;
        self.nodes[new].parent = Some(n);
        new
    }
    /// Copies the subtree (structure and values) as an unlinked subtree; data ids are filled later.
    pub fn copy_subtree(&mut self, n: usize, tid: usize) -> usize {
        let order = self.subtree(n);
        let mut map = std::collections::HashMap::new();
        for x in &order {
            let v = self.nodes[*x].val;
            let c = self.push_node(u32::MAX, v, tid);
            map.insert(*x, c);
        }
        for x in &order {
            let ch: Vec<usize> = self.nodes[*x].children.iter().map(|c| map[c]).collect();
            let me = map[x];
            for c in &ch {
                self.nodes[*c].parent = Some(me);
            }
            self.nodes[me].children = ch;
        }
        map[&n]
    }
    pub fn strong(&self, tid: usize) -> usize {
        let mut c = self.trees[tid].refs;
        for x in self.subtree(self.trees[tid].root) {
            let m = &self.nodes[x];
            c += m.n + m.h + m.f;
        }
        c
    }
    pub fn hot(&self, tid: usize) -> usize {
        self.trees[tid].g
            + self
                .subtree(self.trees[tid].root)
                .iter()
                .map(|x| self.nodes[*x].h)
                .sum::<usize>()
    }
    pub fn frozen(&self, tid: usize) -> usize {
        self.trees[tid].p
            + self
                .subtree(self.trees[tid].root)
                .iter()
                .map(|x| self.nodes[*x].f)
                .sum::<usize>()
    }
    /// Kills every tree without strong references, including cascades through data.
    pub fn settle(&mut self) -> Vec<usize> {
        let mut dead = Vec::new();
        loop {
            let mut changed = false;
            for t in 0..self.trees.len() {
                if self.trees[t].alive && self.strong(t) == 0 {
                    self.trees[t].alive = false;
                    dead.push(t);
                    changed = true;
                    for x in self.subtree(self.trees[t].root) {
                        self.nodes[x].alive = false;
                        for e in std::mem::take(&mut self.nodes[x].extra) {
                            self.nodes[e].n -= 1;
                        }
                    }
                }
            }
            if !changed {
                return dead;
            }
        }
    }
    pub fn next_sib(&self, n: usize) -> Option<usize> {
        let p = self.nodes[n].parent?;
        self.nodes[p].children.get(self.index(n) + 1).copied()
    }
    pub fn prev_sib(&self, n: usize) -> Option<usize> {
        let p = self.nodes[n].parent?;
        self.nodes[p].children.get(self.index(n).checked_sub(1)?).copied()
    }
    /// The event after the given one (opening or not, node).
    pub fn ev_next(&self, (open, n): (bool, usize)) -> Option<(bool, usize)> {
        if open {
            return Some(match self.nodes[n].children.first() {
                Some(c) => (true, *c),
                None => (false, n),
            });
        }
        match self.next_sib(n) {
            Some(x) => Some((true, x)),
            None => self.nodes[n].parent.map(|p| (false, p)),
        }
    }
    /// The event before the given one.
    pub fn ev_prev(&self, (open, n): (bool, usize)) -> Option<(bool, usize)> {
        if !open {
            return Some(match self.nodes[n].children.last() {
                Some(c) => (false, *c),
                None => (true, n),
            });
        }
        match self.prev_sib(n) {
            Some(x) => Some((false, x)),
            None => self.nodes[n].parent.map(|p| (true, p)),
        }
    }
    /// Events of the subtree down to the given depth (with depths, if wanted).
    pub fn events(&self, n: usize, limit: usize, depths: bool) -> VecDeque<(bool, usize, usize)> {
        fn go(m: &Model, n: usize, d: usize, limit: usize, depths: bool, out: &mut VecDeque<(bool, usize, usize)>) {
            let shown = if depths { d } else { 0 };
            out.push_back((true, n, shown));
            if d < limit {
                for c in &m.nodes[n].children {
                    go(m, *c, d + 1, limit, depths, out);
                }
            }
            out.push_back((false, n, shown));
        }
        let mut out = VecDeque::new();
        go(self, n, 0, limit, depths, &mut out);
        out
    }
    /// The nodes of the subtree at and below the given depth, level by level.
    pub fn levels(&self, n: usize, start: usize) -> VecDeque<(bool, usize, usize)> {
        let mut out = VecDeque::new();
        let mut level = vec![n];
        let mut d = 0;
        while !level.is_empty() {
            if d >= start {
                out.extend(level.iter().map(|x| (true, *x, d)));
            }
            level = level.iter().flat_map(|x| self.nodes[*x].children.clone()).collect();
            d += 1;
        }
        out
    }
    pub fn alive_nodes(&self) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|i| self.nodes[*i].alive)
            .collect()
    }
    pub fn alive_trees(&self) -> Vec<usize> {
        (0..self.trees.len())
            .filter(|i| self.trees[*i].alive)
            .collect()
    }
    pub fn depth(&self, n: usize) -> usize {
        let mut d = 0;
        let mut c = self.nodes[n].parent;
        while let Some(x) = c {
            d += 1;
            c = self.nodes[x].parent;
        }
        d
    }
    pub fn show(&self, n: usize) -> String {
        let m = &self.nodes[n];
        if m.children.is_empty() {
            format!("n{n}")
        } else {
            let c: Vec<String> = m.children.iter().map(|c| self.show(*c)).collect();
            format!("n{n}[{}]", c.join(" "))
        }
    }
    pub fn show_all(&self) -> String {
        let v: Vec<String> = self
            .alive_trees()
            .iter()
            .map(|t| format!("t{t}={}", self.show(self.trees[*t].root)))
            .collect();
        v.join("; ")
    }
}
