//! Attribution of failures to properties, case context and panic plumbing.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub type Tags = u32;

macro_rules! tags {
    ($($n:ident = $i:expr),* $(,)?) => { $(pub const $n: Tags = 1 << $i;)* };
}
tags!(
    C01 = 1, C02 = 2, C03 = 3, C04 = 4, C05 = 5, C06 = 6, C07 = 7, C08 = 8, C09 = 9, C10 = 10,
    C11 = 11, C12 = 12, C13 = 13, C14 = 14, C15 = 15, C16 = 16, C17 = 17, C18 = 18, C19 = 19,
    C20 = 20, C21 = 21, C22 = 22, C23 = 23, C24 = 24,
);

pub fn tag_of(p: &str) -> Tags {
    let n: u32 = p[1..].parse().expect("property id");
    1 << n
}

pub fn tag_names(t: Tags) -> String {
    let v: Vec<String> = (1..=24)
        .filter(|i| t & (1 << i) != 0)
        .map(|i| format!("C{i:02}"))
        .collect();
    v.join(",")
}

/// Payload of an oracle failure.
pub struct Fail {
    pub tags: Tags,
    pub msg: String,
}

thread_local! {
    static SCOPE: Cell<Tags> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CLASSES: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static LOG_ON: Cell<bool> = const { Cell::new(false) };
    static FINGER: Cell<u64> = const { Cell::new(0) };
    static NONTRIVIAL: Cell<bool> = const { Cell::new(false) };
    static LIVE_LOG: Cell<bool> = const { Cell::new(false) };
    static FUEL: Cell<u64> = const { Cell::new(0) };
    /// Panics in flight (raised and not yet caught by the harness).
    static IN_FLIGHT: Cell<u32> = const { Cell::new(0) };
    static PRIMARY: RefCell<(Tags, String)> = const { RefCell::new((0, String::new())) };
}

/// Where the index of the running case (and, on request, the current scope) is written, so that the
/// parent process knows what was running when a worker dies.
pub struct Progress {
    pub file: File,
    pub scopes: bool,
}
pub static PROGRESS: OnceLock<Progress> = OnceLock::new();
/// Where the failure of a case is written when it can only be reported by ending the process.
pub static DYING: OnceLock<String> = OnceLock::new();

fn note_scope(t: Tags) {
    if let Some(p) = PROGRESS.get() {
        if p.scopes {
            let _ = p.file.write_at(&t.to_le_bytes(), 8);
        }
    }
}

pub fn note_case(idx: u64) {
    if let Some(p) = PROGRESS.get() {
        let _ = p.file.write_at(&idx.to_le_bytes(), 0);
    }
}

/// Marks the current case as non-trivial by the rule of the running property.
pub fn nontrivial() {
    NONTRIVIAL.with(|n| n.set(true));
}

/// Adds to the fingerprint by which distinct cases are counted.
pub fn finger(v: u64) {
    FINGER.with(|f| f.set(crate::choice::mix(&[f.get(), v])));
}

pub fn class(name: &'static str) {
    CLASSES.with(|c| *c.borrow_mut().entry(name).or_insert(0) += 1);
}

pub fn classes() -> BTreeMap<&'static str, u64> {
    CLASSES.with(|c| c.borrow().clone())
}

/// Human-readable trace of the case, recorded only when asked for.
pub fn log(f: impl FnOnce() -> String) {
    if LOG_ON.with(|l| l.get()) {
        let s = f();
        if LIVE_LOG.with(|l| l.get()) {
            eprintln!("  | {s}");
        }
        LOG.with(|l| l.borrow_mut().push(s));
    }
}

pub fn log_enabled() -> bool {
    LOG_ON.with(|l| l.get())
}

/// No log as long as it lives.
pub struct Quiet(bool);
impl Quiet {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Quiet(LOG_ON.with(|l| l.replace(false)))
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        LOG_ON.with(|l| l.set(self.0));
    }
}

pub fn set_live_log() {
    LIVE_LOG.with(|l| l.set(true));
}

pub fn fail(tags: Tags, msg: String) -> ! {
    note_primary(tags, &msg);
    std::panic::panic_any(Fail { tags, msg })
}

#[macro_export]
macro_rules! check {
    ($tags:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) {
            $crate::cx::fail($tags, format!($($arg)*));
        }
    };
}

fn note_primary(tags: Tags, msg: &str) {
    if IN_FLIGHT.with(|f| f.get()) == 0 {
        PRIMARY.with(|p| *p.borrow_mut() = (tags, msg.to_string()));
    }
}

/// Attributes library panics inside `f` to `tags`.
pub fn lib<R>(tags: Tags, f: impl FnOnce() -> R) -> R {
    let old = SCOPE.with(|s| s.replace(tags));
    note_scope(tags);
    let r = f();
    SCOPE.with(|s| s.set(old));
    note_scope(old);
    r
}

pub fn set_scope(tags: Tags) -> Tags {
    note_scope(tags);
    SCOPE.with(|s| s.replace(tags))
}

pub fn scope() -> Tags {
    SCOPE.with(|s| s.get())
}

/// Calls the library where a panic is a possible (documented) outcome.
/// `Err(message)` is a library panic; oracle failures pass through.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let scope = SCOPE.with(|s| s.get());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            SCOPE.with(|s| s.set(scope));
            IN_FLIGHT.with(|f| f.set(0));
            if p.is::<Fail>() {
                IN_FLIGHT.with(|f| f.set(1));
                std::panic::resume_unwind(p);
            }
            Err(LAST_PANIC.with(|m| m.borrow().clone()))
        }
    }
}

/// Runs `f` apart from whatever else goes on (maybe while another panic unwinds); panics and oracle
/// failures are returned.
pub fn apart(tags: Tags, f: impl FnOnce()) -> Result<(), String> {
    let flight = IN_FLIGHT.with(|f| f.replace(0));
    let primary = PRIMARY.with(|p| p.borrow().clone());
    let last = LAST_PANIC.with(|m| m.borrow().clone());
    let scope = set_scope(tags);
    let r = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Ok(()),
        Err(p) => Err(match p.downcast::<Fail>() {
            Ok(f) => f.msg,
            Err(_) => LAST_PANIC.with(|m| m.borrow().clone()),
        }),
    };
    set_scope(scope);
    IN_FLIGHT.with(|f| f.set(flight));
    PRIMARY.with(|p| *p.borrow_mut() = primary);
    LAST_PANIC.with(|m| *m.borrow_mut() = last);
    r
}

/// Refills the step budget of user-data callbacks (clone, eq, fmt, drop).
pub fn refuel(n: u64) {
    FUEL.with(|f| f.set(n));
}

/// Consumes budget in a user-data callback, so that a library loop that never
/// ends is turned into a failure instead of a hang.
pub fn burn() {
    let left = FUEL.with(|f| {
        let v = f.get();
        f.set(v.saturating_sub(1));
        v
    });
    if left == 0 {
        let t = SCOPE.with(|s| s.get());
        if !std::thread::panicking() {
            fail(t, "user callbacks called without bound (endless loop)".into());
        }
    }
}

pub enum Outcome {
    Pass,
    Fail { tags: Tags, msg: String },
}

pub struct CaseResult {
    pub outcome: Outcome,
    pub finger: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
}

fn note_primary_at(tags: Tags, msg: String) {
    PRIMARY.with(|p| *p.borrow_mut() = (tags, msg));
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<Fail>() {
            IN_FLIGHT.with(|f| f.set(f.get() + 1));
            return;
        } else {
            "non-string panic".to_string()
        };
        let n = IN_FLIGHT.with(|f| f.replace(f.get() + 1));
        if n == 0 {
            let t = scope();
            note_primary_at(if t == 0 { Tags::MAX } else { t }, format!("unexpected panic at {loc}: {m}"));
        } else {
            // A second panic while the first one unwinds: the process is about to abort. Report the
            // first one, which is the failure of the case.
            let (t, msg) = PRIMARY.with(|p| p.borrow().clone());
            let text = format!("{t}\n{msg} (and then, while unwinding: panic at {loc}: {m})\n");
            if let Some(p) = DYING.get() {
                let _ = std::fs::write(p, text);
            } else {
                eprintln!("dying: {text}");
            }
            std::process::exit(4);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}

/// Runs one case and classifies the result.
pub fn run_case(log_on: bool, f: impl FnOnce()) -> CaseResult {
    SCOPE.with(|s| s.set(0));
    FINGER.with(|s| s.set(0));
    NONTRIVIAL.with(|s| s.set(false));
    LOG.with(|l| l.borrow_mut().clear());
    LOG_ON.with(|l| l.set(log_on));
    refuel(50_000_000);
    IN_FLIGHT.with(|f| f.set(0));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_FLIGHT.with(|f| f.set(0));
    let outcome = match r {
        Ok(()) => Outcome::Pass,
        Err(p) => match p.downcast::<Fail>() {
            Ok(f) => Outcome::Fail {
                tags: f.tags,
                msg: f.msg,
            },
            Err(_) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                let t = SCOPE.with(|s| s.get());
                // Without a scope, the panic is not in a call the harness made on purpose: the
                // library panicked in a place (or returned something) that correct code rules out.
                Outcome::Fail {
                    tags: if t == 0 { Tags::MAX } else { t },
                    msg: format!("unexpected {m}"),
                }
            }
        },
    };
    CaseResult {
        outcome,
        finger: FINGER.with(|s| s.get()),
        nontrivial: NONTRIVIAL.with(|s| s.get()),
        log: LOG.with(|l| l.borrow().clone()),
    }
}
