//! C20: `tree!` and `tree_node!` invocations are generated as source code, compiled and run.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use crate::choice::{hash_str, mix, Src};
use crate::runner::verif;

#[derive(Clone)]
struct N {
    expr: usize,
    /// Written as `/(data, [..])`; always so with children.
    paren: bool,
    trailing: bool,
    kids: Vec<N>,
}

#[derive(Clone)]
pub struct Case {
    root: N,
    tree: bool,
    delim: usize,
    trailing: bool,
    /// The evaluation that fails (with `?`), if any.
    fail_at: Option<usize>,
    /// Data type: `i64`, a type without any traits, or `String`.
    ty: usize,
}

const EXPRS: usize = 24;

fn expr(c: &Case, k: usize, id: usize) -> String {
    let e = expr_num(k, id, c.fail_at.is_some());
    match c.ty {
        0 => e,
        1 => format!("V({e})"),
        _ => format!("({e}).to_string()"),
    }
}

fn expr_num(k: usize, id: usize, ret: bool) -> String {
    let e = if ret {
        format!("t.tr({id})?")
    } else {
        format!("t.ev({id})")
    };
    match k {
        0..=4 => e,
        5 => format!("{{ let x = {e}; x }}"),
        6 => format!("if t.yes() {{ {e} }} else {{ -1 }}"),
        7 => format!("match 1 {{ 1 => {e}, _ => -1 }}"),
        8 => format!("({e})"),
        9 => format!("[{e}, 7, 8][0]"),
        10 => format!("-(-({e}))"),
        11 => format!("{e} / 1"),
        12 => format!("*&{e}"),
        13 => format!("{e} as i64 + 0"),
        14 => format!("vec![{e}, 7][0]"),
        15 => format!("({e}, [0, 1]).0"),
        16 => {
            if ret {
                format!("std::convert::identity({e})")
            } else {
                format!("(|| {e})()")
            }
        }
        17 => format!("{{ let n = dendron::tree_node! {{ {e}, [1, /(2, [3,])] }}; let v = *n.borrow_data(); v }}"),
        18 => format!("{e} + root + node - parent + descendant - 4"),
        19 => format!("[[{e}]; 1][0][0]"),
        20 => format!("{{ {e} }}"),
        21 => format!("i64::max({e}, -5)"),
        22 => format!("loop {{ break {e}; }}"),
        _ => format!("{e} % 1_000_000 | 0"),
    }
}

fn gen_node(src: &mut Src, depth: usize, left: &mut usize) -> N {
    let kids_n = if *left == 0 || depth > 24 {
        0
    } else {
        match src.draw(10) {
            0..=3 => 0,
            4 | 5 => 1,
            6 | 7 => 2,
            8 => 3,
            _ => src.draw(9),
        }
    };
    let mut n = N {
        expr: src.draw(EXPRS),
        paren: src.chance(1, 6),
        trailing: src.chance(1, 2),
        kids: Vec::new(),
    };
    for _ in 0..kids_n {
        if *left == 0 {
            break;
        }
        *left -= 1;
        let k = gen_node(src, depth + 1, left);
        n.kids.push(k);
    }
    n
}

pub fn gen(src: &mut Src) -> Case {
    let mut left = match src.draw(8) {
        0 => 0,
        1..=4 => 2 + src.draw(6),
        5 | 6 => 4 + src.draw(14),
        _ => 10 + src.draw(30),
    };
    let style = src.draw(8);
    let root = if style == 0 {
        // A chain.
        let mut n = leaf(src);
        for _ in 0..src.draw(28) {
            let mut p = leaf(src);
            p.kids.push(n);
            if src.chance(1, 4) {
                p.kids.push(leaf(src));
            }
            if src.chance(1, 4) {
                p.kids.insert(0, leaf(src));
            }
            n = p;
        }
        n
    } else if style == 1 {
        // Flat, leaves and nodes with children mixed.
        let mut n = leaf(src);
        let wide = if src.chance(1, 20) { 100 } else { 0 };
        for _ in 0..wide + src.draw(30) {
            let mut k = leaf(src);
            if src.chance(1, 4) {
                k.kids.push(leaf(src));
            }
            n.kids.push(k);
        }
        n
    } else {
        let want = left > 0;
        let mut n = gen_node(src, 0, &mut left);
        // Most trees have more than a root.
        while want && n.kids.is_empty() {
            let mut l = left.max(1);
            let k = gen_node(src, 1, &mut l);
            n.kids.push(k);
        }
        n
    };
    let size = count(&root);
    Case {
        root,
        tree: src.chance(1, 3),
        delim: src.draw(3),
        trailing: src.chance(1, 2),
        ty: src.draw(3),
        fail_at: if src.chance(1, 8) {
            Some(src.draw(size))
        } else {
            None
        },
    }
}

fn leaf(src: &mut Src) -> N {
    N {
        expr: src.draw(EXPRS),
        paren: src.chance(1, 6),
        trailing: src.chance(1, 2),
        kids: Vec::new(),
    }
}

fn count(n: &N) -> usize {
    1 + n.kids.iter().map(count).sum::<usize>()
}

fn list(n: &N, id: &mut usize, c: &Case, o: &mut String) {
    o.push('[');
    for (i, k) in n.kids.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        let me = *id;
        *id += 1;
        if k.paren || !k.kids.is_empty() {
            let _ = write!(o, "/({}, ", expr(c, k.expr, me));
            list(k, id, c, o);
            o.push(')');
        } else {
            o.push_str(&expr(c, k.expr, me));
        }
    }
    if n.trailing && !n.kids.is_empty() {
        o.push(',');
    }
    o.push(']');
}

fn spec(n: &N, depth: usize, o: &mut Vec<usize>) {
    o.push(depth);
    for k in &n.kids {
        spec(k, depth + 1, o);
    }
}

impl Case {
    pub fn size(&self) -> usize {
        count(&self.root)
    }
    pub fn invocation(&self) -> String {
        let mut o = String::new();
        let mut id = 1;
        let (a, b) = [("{ ", " }"), ("(", ")"), ("[", "]")][self.delim];
        let _ = write!(
            o,
            "dendron::{}!{a}{}",
            if self.tree { "tree" } else { "tree_node" },
            expr(self, self.root.expr, 0)
        );
        if self.root.paren || !self.root.kids.is_empty() {
            o.push_str(", ");
            list(&self.root, &mut id, self, &mut o);
            if self.trailing {
                o.push(',');
            }
        }
        o.push_str(b);
        o
    }
    fn function(&self, idx: u64) -> String {
        let mut d = Vec::new();
        spec(&self.root, 0, &mut d);
        let inv = self.invocation();
        let get = if self.tree { "let x = tree.root();" } else { "let x = tree;" };
        match self.fail_at {
            None => format!(
                "fn case_{idx}(t: &T) {{\n    t.start({idx}, None);\n    let (root, node, parent, descendant) = (1i64, 2i64, 3i64, 4i64);\n    let _ = (root, node, parent, descendant);\n    let tree = {inv};\n    {get}\n    t.check(x, &{d:?});\n}}\n"
            ),
            Some(k) => format!(
                "fn case_{idx}(t: &T) {{\n    t.start({idx}, Some({k}));\n    let (root, node, parent, descendant) = (1i64, 2i64, 3i64, 4i64);\n    let _ = (root, node, parent, descendant);\n    let r = (|| -> Result<(), ()> {{\n        let tree = {inv};\n        let _ = tree;\n        Ok(())\n    }})();\n    t.check_failed(r.is_err());\n}}\n"
            ),
        }
    }
    /// Cases with one subtree (or one wrapper level, or one fancy expression) less.
    fn smaller(&self) -> Vec<Case> {
        let mut out = Vec::new();
        fn paths(n: &N, p: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
            for (i, k) in n.kids.iter().enumerate() {
                p.push(i);
                o.push(p.clone());
                paths(k, p, o);
                p.pop();
            }
        }
        let mut ps = Vec::new();
        paths(&self.root, &mut Vec::new(), &mut ps);
        for p in ps.iter().take(60) {
            let mut c = self.clone();
            let mut n = &mut c.root;
            for i in &p[..p.len() - 1] {
                n = &mut n.kids[*i];
            }
            n.kids.remove(p[p.len() - 1]);
            if c.fail_at.is_some_and(|f| f >= c.size()) {
                c.fail_at = Some(c.size() - 1);
            }
            out.push(c);
        }
        let mut c = self.clone();
        fn plain(n: &mut N) {
            n.expr = 0;
            n.kids.iter_mut().for_each(plain);
        }
        plain(&mut c.root);
        if c.invocation() != self.invocation() {
            out.push(c);
        }
        out
    }
}

const RUNTIME: &str = r##"// Generated.
#![recursion_limit = "2048"]
#![allow(unused, clippy::all)]
use std::cell::{Cell, RefCell};
use dendron::Node;

pub struct T {
    case: Cell<u64>,
    log: RefCell<Vec<i64>>,
    fail_at: Cell<i64>,
}
/// Neither `Clone` nor anything else.
pub struct V(i64);
pub trait Id { fn id(&self) -> i64; }
impl Id for i64 { fn id(&self) -> i64 { *self } }
impl Id for V { fn id(&self) -> i64 { self.0 } }
impl Id for String { fn id(&self) -> i64 { self.parse().unwrap() } }
impl T {
    fn new() -> T { T { case: Cell::new(0), log: RefCell::new(Vec::new()), fail_at: Cell::new(-1) } }
    fn start(&self, case: u64, fail_at: Option<i64>) {
        println!("START {case}");
        self.case.set(case);
        self.log.borrow_mut().clear();
        self.fail_at.set(fail_at.unwrap_or(-1));
    }
    fn ev(&self, id: i64) -> i64 { self.log.borrow_mut().push(id); id }
    fn tr(&self, id: i64) -> Result<i64, ()> {
        self.log.borrow_mut().push(id);
        if id == self.fail_at.get() { Err(()) } else { Ok(id) }
    }
    fn yes(&self) -> bool { true }
    fn bad(&self, m: String) { println!("FAIL {} {}", self.case.get(), m); }
    fn check_failed(&self, err: bool) {
        let n = self.fail_at.get();
        let want: Vec<i64> = (0..=n).collect();
        if !err || *self.log.borrow() != want {
            self.bad(format!("the data expression {n} returned from the function; evaluated: {:?}, expected {want:?}; returned: {err}", self.log.borrow()));
        }
    }
    fn check<D: Id>(&self, x: Node<D>, depths: &[usize]) {
        let want: Vec<i64> = (0..depths.len() as i64).collect();
        if *self.log.borrow() != want {
            self.bad(format!("data expressions evaluated in the order {:?}, expected {want:?}", self.log.borrow()));
        }
        // Walk by the links; bounded.
        let mut got: Vec<(usize, i64)> = Vec::new();
        let mut cur = Some((x.clone(), 0usize));
        while let Some((n, d)) = cur {
            got.push((d, n.borrow_data().id()));
            if got.len() > depths.len() { break; }
            cur = match n.first_child() {
                Some(c) => Some((c, d + 1)),
                None => {
                    let (mut n, mut d) = (n, d);
                    loop {
                        if d == 0 { break None; }
                        if let Some(s) = n.next_sibling() { break Some((s, d)); }
                        match n.parent() { Some(p) => { n = p; d -= 1; } None => break None }
                    }
                }
            };
        }
        let want: Vec<(usize, i64)> = depths.iter().copied().zip(0..).collect();
        if got != want {
            self.bad(format!("the tree is (depth, data) {got:?}, expected {want:?}"));
        }
        if !x.is_root() || !x.tree().root().ptr_eq(&x) {
            self.bad("the result is not the root of its tree".into());
        }
        let e: usize = x.depth_first_traverse().take(2 * depths.len() + 1).count();
        if e != 2 * depths.len() {
            self.bad(format!("{e} traversal events, expected {}", 2 * depths.len()));
        }
        if x.tree().grant_hierarchy_edit().is_err() || x.tree().prohibit_hierarchy_edit().is_err() {
            self.bad("the new tree is locked".into());
        }
    }
}
"##;

fn program(cases: &[(u64, Case)]) -> String {
    let mut o = String::from(RUNTIME);
    for (i, c) in cases {
        o.push_str(&c.function(*i));
    }
    o.push_str("fn main() {\n    let t = T::new();\n");
    o.push_str("    std::panic::set_hook(Box::new(|_| {}));\n");
    for (i, _) in cases {
        let _ = writeln!(
            o,
            "    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case_{i}(&t))).is_err() {{ t.bad(\"panicked\".into()); }}"
        );
    }
    let _ = writeln!(o, "    println!(\"DONE {}\");\n}}", cases.len());
    o
}

pub fn case_of(seed: u64, idx: u64) -> Case {
    let mut src = Src::random(mix(&[seed, hash_str("C20"), idx]));
    gen(&mut src)
}

enum Built {
    Ran(String),
    /// Compiler output.
    Broken(String),
    Other(String),
}

fn dir() -> PathBuf {
    verif().join("out").join("macrogen")
}

/// Builds and runs programs, each one binary.
fn build_run(tag: &str, programs: &[String]) -> Vec<Built> {
    let d = dir().join(tag);
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(d.join("src/bin")).unwrap();
    let repo = std::env::var("DENDRON_DIR").unwrap_or_else(|_| "/repo".into());
    fs::write(
        d.join("Cargo.toml"),
        format!("[package]\nname = \"macrogen\"\nversion = \"0.1.0\"\nedition = \"2021\"\npublish = false\n\n[workspace]\n\n[dependencies]\ndendron = {{ path = \"{repo}\" }}\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n"),
    )
    .unwrap();
    for (i, p) in programs.iter().enumerate() {
        fs::write(d.join(format!("src/bin/b{i}.rs")), p).unwrap();
    }
    let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()))
        .join("macrogen");
    let cargo = |args: &[&str]| {
        Command::new("cargo")
            .args(args)
            .current_dir(&d)
            .env("CARGO_TARGET_DIR", &target)
            .env("CARGO_NET_OFFLINE", "true")
            .env_remove("RUSTFLAGS")
            .stdin(Stdio::null())
            .output()
            .expect("cargo")
    };
    let all = cargo(&["build", "--offline", "--bins", "--keep-going"]);
    let text = String::from_utf8_lossy(&all.stderr).to_string();
    let mut out = Vec::new();
    for i in 0..programs.len() {
        if !all.status.success() {
            let one = cargo(&["build", "--offline", "--bin", &format!("b{i}")]);
            if !one.status.success() {
                let t = String::from_utf8_lossy(&one.stderr).to_string();
                out.push(Built::Broken(t));
                continue;
            }
        }
        let r = Command::new("timeout")
            .arg("60")
            .arg(target.join("debug").join(format!("b{i}")))
            .stdin(Stdio::null())
            .output();
        match r {
            Ok(o) => {
                let s = String::from_utf8_lossy(&o.stdout).to_string();
                if o.status.success() && s.contains("DONE ") {
                    out.push(Built::Ran(s));
                } else if let Some(l) = s.lines().rev().find_map(|l| l.strip_prefix("START ")) {
                    // Aborted, or did not end within 60 s.
                    let f = format!("FAIL {l} the process running it ended with {:?}\n", o.status);
                    out.push(Built::Ran(f));
                } else {
                    out.push(Built::Other(format!(
                        "binary ended with {:?}: {s} {}",
                        o.status,
                        String::from_utf8_lossy(&o.stderr)
                    )));
                }
            }
            Err(e) => out.push(Built::Other(format!("{e} {text}"))),
        }
    }
    out
}

fn fails(s: &str) -> Vec<(u64, String)> {
    s.lines()
        .filter_map(|l| l.strip_prefix("FAIL "))
        .filter_map(|l| l.split_once(' '))
        .map(|(i, m)| (i.parse().unwrap_or(u64::MAX), m.to_string()))
        .collect()
}

pub struct Report {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violation: Option<PathBuf>,
    pub inconclusive: Vec<String>,
}

pub fn run(seed: u64, count: u64, until: std::time::Instant) -> Report {
    let mut rep = Report {
        evals: 0,
        nontrivial: 0,
        distinct: 0,
        classes: BTreeMap::new(),
        samples: Vec::new(),
        violation: None,
        inconclusive: Vec::new(),
    };
    let mut seen = std::collections::HashSet::new();
    let round = 480u64;
    let mut first = 0;
    while first < count && std::time::Instant::now() < until {
        let last = (first + round).min(count);
        let cases: Vec<(u64, Case)> = (first..last).map(|i| (i, case_of(seed, i))).collect();
        for (i, c) in &cases {
            let inv = c.invocation();
            rep.evals += 1;
            if c.size() >= 3 {
                rep.nontrivial += 1;
                if seen.insert(hash_str(&inv)) {
                    rep.distinct += 1;
                }
                if rep.samples.len() < 6 && i % 7 == 0 {
                    rep.samples.push(format!("case {i}: {inv}"));
                }
            }
            *rep.classes
                .entry(if c.tree { "tree!" } else { "tree_node!" }.into())
                .or_default() += 1;
            if c.fail_at.is_some() {
                *rep.classes.entry("data expression leaves the function".into()).or_default() += 1;
            }
            if c.size() == 1 {
                *rep.classes.entry("root only".into()).or_default() += 1;
            }
        }
        let n = 8;
        let per = cases.len().div_ceil(n);
        let chunks: Vec<&[(u64, Case)]> = cases.chunks(per).collect();
        let programs: Vec<String> = chunks.iter().map(|c| program(c)).collect();
        for (k, b) in build_run("main", &programs).into_iter().enumerate() {
            match b {
                Built::Ran(s) => {
                    if let Some((i, m)) = fails(&s).into_iter().next() {
                        rep.violation = Some(report(seed, i, &m, true));
                        return rep;
                    }
                }
                Built::Broken(text) => {
                    // Is it the invocations, or everything?
                    let control = build_run("control", &[program(&[])]);
                    if !matches!(control.first(), Some(Built::Ran(_))) {
                        rep.inconclusive.push(format!("the control program does not build: {text}"));
                        return rep;
                    }
                    // Find a case that does not compile.
                    let mut lo: Vec<(u64, Case)> = chunks[k].to_vec();
                    while lo.len() > 1 {
                        let half = lo.len() / 2;
                        let (a, b) = lo.split_at(half);
                        let r = build_run("bisect", &[program(a)]);
                        lo = if matches!(r.first(), Some(Built::Broken(_))) {
                            a.to_vec()
                        } else {
                            b.to_vec()
                        };
                    }
                    let r = build_run("bisect", &[program(&lo)]);
                    match r.into_iter().next() {
                        Some(Built::Broken(t)) => {
                            let err: Vec<&str> = t
                                .lines()
                                .filter(|l| l.starts_with("error"))
                                .take(3)
                                .collect();
                            rep.violation = Some(report(
                                seed,
                                lo[0].0,
                                &format!("the invocation does not compile: {}", err.join("; ")),
                                false,
                            ));
                        }
                        _ => rep.inconclusive.push(format!("a program does not build: {text}")),
                    }
                    return rep;
                }
                Built::Other(m) => rep.inconclusive.push(m),
            }
        }
        if !rep.inconclusive.is_empty() {
            return rep;
        }
        first = last;
    }
    rep
}

fn report(seed: u64, idx: u64, msg: &str, shrink: bool) -> PathBuf {
    let mut c = case_of(seed, idx);
    let mut m = msg.to_string();
    if shrink {
        for _ in 0..8 {
            let v = c.smaller();
            let all: Vec<(u64, Case)> = v.iter().cloned().enumerate().map(|(i, c)| (i as u64, c)).collect();
            if all.is_empty() {
                break;
            }
            let r = build_run("shrink", &[program(&all)]);
            let Some(Built::Ran(s)) = r.into_iter().next() else {
                break;
            };
            let mut f = fails(&s);
            f.sort_by_key(|(i, _)| v[*i as usize].invocation().len());
            match f.into_iter().next() {
                Some((i, t)) => {
                    c = v[i as usize].clone();
                    m = t;
                }
                None => break,
            }
        }
    }
    let d = verif().join("out").join("replays");
    fs::create_dir_all(&d).unwrap();
    let file = d.join(format!("C20-seed{seed}-case{idx}.txt"));
    let text = format!(
        "property=C20\nengine=macrogen\nseed={seed} case={idx}\nfailure={m}\ninvocation (reduced): {}\noriginal invocation: {}\n",
        c.invocation(),
        case_of(seed, idx).invocation()
    );
    fs::write(&file, &text).unwrap();
    println!("{text}");
    file
}

/// Exit code of `harness replay` for a file of this property.
pub fn replay(path: &Path) -> i32 {
    let text = fs::read_to_string(path).expect("replay file");
    let l = text
        .lines()
        .find_map(|l| l.strip_prefix("seed="))
        .expect("seed");
    let (s, c) = l.split_once(" case=").expect("case");
    let (seed, idx) = (s.parse().unwrap(), c.parse().unwrap());
    let case = case_of(seed, idx);
    println!("{}", case.invocation());
    match build_run("replay", &[program(&[(idx, case)])]).into_iter().next() {
        Some(Built::Ran(s)) => {
            let f = fails(&s);
            for (_, m) in &f {
                println!("fails: {m}");
            }
            if f.is_empty() {
                println!("the case passes");
            }
            i32::from(!f.is_empty())
        }
        Some(Built::Broken(t)) => {
            println!("does not compile: {t}");
            1
        }
        _ => 2,
    }
}
