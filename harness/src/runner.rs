//! Case plans, shard workers and the parent process that drives them.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::process::{CommandExt as _, ExitStatusExt as _};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::time::{Duration, Instant};

use crate::choice::{hash_str, mix, read_sink, shrink, Src};
use crate::cx::*;
use crate::{engines, macrogen, probe};

pub const SHARDS: u64 = 8;

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Whether cases run in the build that counts steps.
static COUNTING: AtomicBool = AtomicBool::new(false);

fn choose_build(prop: &str) {
    COUNTING.store(prop == "C24", Relaxed);
}

fn bin(shard_is_release: bool) -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    Path::new(&t)
        .join(match shard_is_release {
            _ if COUNTING.load(Relaxed) => "count/release",
            true => "release",
            false => "debug",
        })
        .join("harness")
}

/// Odd shards run the release build, even ones the build with debug assertions.
fn release_of(idx: u64) -> bool {
    (idx % SHARDS) % 2 == 1
}

fn case_src(prop: &str, seed: u64, idx: u64) -> Src {
    Src::random(mix(&[seed, hash_str(prop), idx]))
}

fn engine_of(prop: &str, seed: u64, idx: u64) -> &'static str {
    let plan = engines::plan(prop);
    let total: u64 = plan.iter().map(|p| p.1 as u64).sum();
    let mut v = mix(&[seed, idx, 77]) % total;
    for (e, w) in plan {
        if v < w as u64 {
            return e;
        }
        v -= w as u64;
    }
    unreachable!()
}

fn run_idx(prop: &str, seed: u64, idx: u64, log: bool) -> (CaseResult, Src) {
    run_src(prop, seed, idx, log, case_src(prop, seed, idx))
}

fn run_src(prop: &str, seed: u64, idx: u64, log: bool, mut src: Src) -> (CaseResult, Src) {
    let e = engine_of(prop, seed, idx);
    let mut r = run_case(log, || engines::run(e, prop, &mut src));
    let mut h = r.finger;
    for c in &src.trace {
        h = (h ^ u64::from(*c)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    }
    r.finger = h;
    (r, src)
}

pub fn seed_env() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

// ------------------------------------------------------------------------------------------ worker

/// `harness shard PROP SEED SHARD CASES OUTDIR FROM`
pub fn shard(a: &[String]) -> i32 {
    let (prop, seed, shard, cases, out, from): (&str, u64, u64, u64, &str, u64) = (
        &a[0],
        a[1].parse().unwrap(),
        a[2].parse().unwrap(),
        a[3].parse().unwrap(),
        &a[4],
        a[5].parse().unwrap(),
    );
    install_hook();
    let base = format!("{out}/s{shard}");
    let f = fs::File::create(format!("{base}.progress")).unwrap();
    let _ = PROGRESS.set(Progress {
        file: f,
        scopes: false,
    });
    let _ = DYING.set(format!("{base}.dying"));
    let own = tag_of(prop);
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut foreign: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut failure: Option<(u64, Tags, String)> = None;
    let mut idx = from;
    // A guard against slow machines.
    let until = std::env::var("HARNESS_DEADLINE_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .map(|s| Instant::now() + Duration::from_secs(s));
    while idx < cases {
        if until.is_some_and(|u| idx / SHARDS % 16 == 0 && Instant::now() > u) {
            break;
        }
        note_case(idx);
        let (r, _) = run_idx(prop, seed, idx, false);
        evals += 1;
        if r.nontrivial {
            nontrivial += 1;
            if fps.len() < 2_000_000 {
                fps.insert(r.finger);
            }
            if samples.len() < 2 && (samples.is_empty() || r.finger % 8 == 0) {
                if let Outcome::Pass = r.outcome {
                    let (r2, _) = run_idx(prop, seed, idx, true);
                    let mut s = format!(
                        "case {idx} ({}): {}",
                        engine_of(prop, seed, idx),
                        r2.log.join("; ")
                    );
                    if s.len() > 1500 {
                        let mut k = 1500;
                        while !s.is_char_boundary(k) {
                            k -= 1;
                        }
                        s.truncate(k);
                        s.push_str(" ...");
                    }
                    samples.push(s);
                }
            }
        }
        if let Outcome::Fail { tags, msg } = r.outcome {
            if tags & own != 0 {
                failure = Some((idx, tags, msg));
                break;
            }
            let e = foreign.entry(tag_names(tags)).or_insert((0, msg));
            e.0 += 1;
        }
        idx += SHARDS;
    }
    let mut o = String::new();
    let _ = writeln!(o, "evals {evals}\nnontrivial {nontrivial}");
    for (k, v) in classes() {
        let _ = writeln!(o, "class {v} {k}");
    }
    for (k, (n, m)) in &foreign {
        let _ = writeln!(o, "foreign {n} {k} {}", enc(m));
    }
    for s in &samples {
        let _ = writeln!(o, "sample {}", enc(s));
    }
    if let Some((i, t, m)) = &failure {
        let _ = writeln!(o, "fail {i} {t} {}", enc(m));
    }
    let mut fp = Vec::with_capacity(fps.len() * 8);
    for x in &fps {
        fp.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(format!("{base}.fp"), fp).unwrap();
    fs::write(format!("{base}.res"), o).unwrap();
    // Leave at once: leaked state of failed cases must not be destroyed.
    std::process::exit(0);
}

/// `harness one PROP SEED IDX OUTBASE [CHOICES]`: one case (or the one with the choices in a file),
/// with scopes and choices noted as it runs.
pub fn one(a: &[String]) -> i32 {
    let (prop, seed, idx, base): (&str, u64, u64, &str) =
        (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), &a[3]);
    install_hook();
    set_live_log();
    let f = fs::File::create(format!("{base}.progress")).unwrap();
    let _ = PROGRESS.set(Progress {
        file: f,
        scopes: true,
    });
    let _ = DYING.set(format!("{base}.dying"));
    note_case(idx);
    let mut src = match a.get(4) {
        None => case_src(prop, seed, idx),
        Some(f) => Src::replay(read_sink(f).0),
    };
    src.sink = fs::File::create(format!("{base}.trace")).ok();
    let (r, src) = run_src(prop, seed, idx, true, src);
    finish_one(&r, &src, base);
    std::process::exit(0);
}

fn finish_one(r: &CaseResult, src: &Src, base: &str) {
    let mut o = String::new();
    if let Outcome::Fail { tags, msg } = &r.outcome {
        let _ = writeln!(o, "fail 0 {tags} {}", enc(msg));
    }
    let t: Vec<String> = src.trace.iter().map(u32::to_string).collect();
    let _ = writeln!(o, "trace {}", t.join(","));
    for l in &r.log {
        let _ = writeln!(o, "log {}", enc(l));
    }
    let _ = fs::write(format!("{base}.res"), o);
}

/// `harness shrink PROP SEED IDX FILE`: rewrites the replay FILE with a smaller case.
pub fn shrink_cmd(a: &[String]) -> i32 {
    let (prop, seed, idx, file): (&str, u64, u64, &str) =
        (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap(), &a[3]);
    install_hook();
    let _ = DYING.set("/dev/null".into());
    let own = tag_of(prop);
    let e = engine_of(prop, seed, idx);
    let (r, src) = run_idx(prop, seed, idx, false);
    let Outcome::Fail { tags, .. } = r.outcome else {
        return 1;
    };
    if tags & own == 0 {
        return 1;
    }
    let best = shrink(src.trace, src.marks, 3000, |c| {
        let mut s = Src::replay(c.to_vec());
        let r = run_case(false, || engines::run(e, prop, &mut s));
        match r.outcome {
            Outcome::Fail { tags, .. } if tags & own != 0 => Some((s.trace, s.marks)),
            _ => None,
        }
    });
    let mut s = Src::replay(best);
    let r = run_case(true, || engines::run(e, prop, &mut s));
    if let Outcome::Fail { tags, msg } = &r.outcome {
        write_replay(
            Path::new(file),
            prop,
            e,
            release_of(idx),
            *tags,
            msg,
            &s.trace,
            &r.log,
            (seed, idx),
        );
    }
    std::process::exit(0);
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    path: &Path,
    prop: &str,
    engine: &str,
    release: bool,
    tags: Tags,
    msg: &str,
    trace: &[u32],
    log: &[String],
    from: (u64, u64),
) {
    let mut o = String::new();
    let _ = writeln!(o, "property={prop}");
    let _ = writeln!(o, "engine={engine}");
    let _ = writeln!(o, "build={}", if release { "release" } else { "debug" });
    let _ = writeln!(o, "seed={} case={}", from.0, from.1);
    let _ = writeln!(o, "tags={}", tag_names(tags));
    let _ = writeln!(o, "failure={}", enc(msg));
    let t: Vec<String> = trace.iter().map(u32::to_string).collect();
    let _ = writeln!(o, "choices={}", t.join(","));
    let _ = writeln!(o, "steps:");
    for l in log {
        let _ = writeln!(o, "  {}", enc(l));
    }
    let _ = fs::write(path, o);
}

/// `harness replay FILE`: exit 1 if the recorded case still fails.
pub fn replay(a: &[String]) -> i32 {
    let text = fs::read_to_string(&a[0]).expect("replay file");
    let get = |k: &str| -> String {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .unwrap_or("")
            .to_string()
    };
    if get("engine") == "probe" {
        return probe::run(&get("probe"));
    }
    if get("engine") == "macrogen" {
        return macrogen::replay(Path::new(&a[0]));
    }
    let (prop, engine, build) = (get("property"), get("engine"), get("build"));
    choose_build(&prop);
    if engine == "sequence" {
        let n = |k: &str| get(k).parse().unwrap();
        let out = verif().join("out").join("replay");
        let r = again(&prop, n("seed"), n("from"), n("case"), out.to_str().unwrap());
        println!("{}", r.clone().unwrap_or_else(|| "the cases pass".into()));
        return i32::from(r.is_some());
    }
    let rel = build == "release";
    let me = std::env::current_exe().unwrap();
    if me != bin(rel) && bin(rel).exists() && std::env::var("HARNESS_REPLAY").is_err() {
        let e = Command::new(bin(rel))
            .arg("replay")
            .args(a)
            .env("HARNESS_REPLAY", "1")
            .exec();
        panic!("{e}");
    }
    install_hook();
    set_live_log();
    let choices: Vec<u32> = get("choices")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let mut s = Src::replay(choices);
    let r = run_case(true, || engines::run(&engine, &prop, &mut s));
    match r.outcome {
        Outcome::Pass => {
            println!("the case passes");
            std::process::exit(0)
        }
        Outcome::Fail { tags, msg } => {
            println!("fails [{}]: {msg}", tag_names(tags));
            std::process::exit(i32::from(tags & tag_of(&prop) != 0))
        }
    }
}

// ------------------------------------------------------------------------------------------ parent

struct Worker {
    shard: u64,
    /// First case.
    from: u64,
    child: Child,
    last: (u64, Instant),
    done: bool,
}

#[derive(Default)]
struct Res {
    evals: u64,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    foreign: BTreeMap<String, (u64, String)>,
    samples: Vec<String>,
    fail: Option<(u64, Tags, String)>,
    trace: Vec<u32>,
    log: Vec<String>,
}

fn read_res(path: &str, r: &mut Res) -> bool {
    let Ok(t) = fs::read_to_string(path) else {
        return false;
    };
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "evals" => r.evals += v.parse::<u64>().unwrap(),
            "nontrivial" => r.nontrivial += v.parse::<u64>().unwrap(),
            "class" => {
                let (n, c) = v.split_once(' ').unwrap();
                *r.classes.entry(c.into()).or_default() += n.parse::<u64>().unwrap();
            }
            "foreign" => {
                let mut p = v.splitn(3, ' ');
                let n: u64 = p.next().unwrap().parse().unwrap();
                let c = p.next().unwrap().to_string();
                let m = dec(p.next().unwrap_or(""));
                r.foreign.entry(c).or_insert((0, m)).0 += n;
            }
            "sample" => r.samples.push(dec(v)),
            "fail" => {
                let mut p = v.splitn(3, ' ');
                let i = p.next().unwrap().parse().unwrap();
                let t = p.next().unwrap().parse().unwrap();
                r.fail = Some((i, t, dec(p.next().unwrap_or(""))));
            }
            "trace" => {
                r.trace = v
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(|s| s.parse().unwrap())
                    .collect()
            }
            "log" => r.log.push(dec(v)),
            _ => {}
        }
    }
    true
}

fn progress(path: &str) -> (u64, Tags) {
    let b = fs::read(path).unwrap_or_default();
    let i = b
        .get(..8)
        .map_or(0, |b| u64::from_le_bytes(b.try_into().unwrap()));
    let t = b
        .get(8..12)
        .map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()));
    (i, t)
}

fn limited(rel: bool, cpu_s: Option<u32>, args: &[String]) -> Command {
    // Address space and (for single cases) CPU time are limited, so that runaway cases end the same
    // way whatever else the machine is doing.
    let mut sh = String::from("ulimit -c 0; ulimit -v 3500000; ");
    if let Some(c) = cpu_s {
        let _ = write!(sh, "ulimit -t {c}; ");
    }
    sh.push_str("exec \"$0\" \"$@\"");
    let mut c = Command::new("/bin/sh");
    c.arg("-c").arg(sh).arg(bin(rel)).args(args);
    c.stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    c
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Why {
    /// The oracle was not satisfied.
    Failed,
    /// The process ended or made no progress.
    Ended,
}

/// No progress for so long is looked into.
const STALL_S: u64 = 25;

/// Runs the cases of a worker again up to the given one; the failure of that one if it fails again.
fn again(prop: &str, seed: u64, from: u64, idx: u64, out: &str) -> Option<String> {
    let dir = format!("{out}/again");
    fs::create_dir_all(&dir).ok()?;
    let mut w = spawn_shard(prop, seed, idx % SHARDS, idx + 1, &dir, from, 200);
    w.child.wait().ok()?;
    let mut r = Res::default();
    read_res(&format!("{dir}/s{}.res", w.shard), &mut r);
    match r.fail {
        Some((i, t, m)) if i == idx && t & tag_of(prop) != 0 => Some(m),
        _ => None,
    }
}

fn spawn_shard(
    prop: &str,
    seed: u64,
    shard: u64,
    cases: u64,
    out: &str,
    from: u64,
    deadline_s: u64,
) -> Worker {
    for ext in ["progress", "dying", "res", "fp"] {
        let _ = fs::remove_file(format!("{out}/s{shard}.{ext}"));
    }
    let args: Vec<String> = vec![
        "shard".into(),
        prop.into(),
        seed.to_string(),
        shard.to_string(),
        cases.to_string(),
        out.into(),
        from.to_string(),
    ];
    let child = limited(release_of(shard), None, &args)
        .env("HARNESS_DEADLINE_S", deadline_s.to_string())
        .spawn()
        .expect("worker");
    Worker {
        shard,
        from,
        child,
        last: (u64::MAX, Instant::now()),
        done: false,
    }
}

/// What happened when a suspicious case was run again on its own.
enum Confirm {
    Passes,
    Fails {
        tags: Tags,
        msg: String,
        trace: Vec<u32>,
        marks: Vec<usize>,
        log: Vec<String>,
        /// The case ended its process.
        died: bool,
    },
    Inconclusive(String),
}

fn alone(prop: &str, seed: u64, idx: u64, out: &str, choices: Option<&[u32]>, cpu_s: u32) -> Confirm {
    let base = format!("{out}/one{idx}{}", if choices.is_some() { "s" } else { "" });
    for ext in ["progress", "dying", "res", "trace", "err"] {
        let _ = fs::remove_file(format!("{base}.{ext}"));
    }
    let mut args: Vec<String> = vec![
        "one".into(),
        prop.into(),
        seed.to_string(),
        idx.to_string(),
        base.clone(),
    ];
    if let Some(c) = choices {
        let b: Vec<u8> = c.iter().flat_map(|v| v.to_le_bytes()).collect();
        let f = format!("{base}.in");
        fs::write(&f, b).unwrap();
        args.push(f);
    }
    let mut cmd = limited(release_of(idx), Some(cpu_s), &args);
    if let Ok(f) = fs::File::create(format!("{base}.err")) {
        cmd.stderr(f);
    }
    let mut child = cmd.spawn().expect("worker");
    let start = Instant::now();
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > Duration::from_secs(150) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let Some(st) = st else {
        return Confirm::Inconclusive("the case did not end within the wall-clock limit".into());
    };
    let death = if st.code() == Some(4) {
        let t = fs::read_to_string(format!("{base}.dying")).unwrap_or_default();
        let (tags, msg) = t.split_once('\n').unwrap_or(("0", ""));
        Some((tags.parse().unwrap_or(0), msg.trim().to_string()))
    } else if let Some(sig) = st.signal() {
        let (_, t) = progress(&format!("{base}.progress"));
        let what = match sig {
            24 | 9 => format!("used more than {cpu_s} s of CPU time (normally milliseconds): endless loop"),
            11 => "ended by SIGSEGV".into(),
            6 => "aborted (stack overflow, double panic or allocation failure)".into(),
            _ => "ended by a signal".into(),
        };
        Some((
            if t == 0 { Tags::MAX } else { t },
            format!("the process running the case {what}"),
        ))
    } else {
        None
    };
    if let Some((tags, msg)) = death {
        let (trace, marks) = read_sink(&format!("{base}.trace"));
        let log = fs::read(format!("{base}.err"))
            .map(|b| String::from_utf8_lossy(&b).to_string())
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix("  | "))
            .map(str::to_string)
            .collect();
        return Confirm::Fails {
            tags,
            msg,
            trace,
            marks,
            log,
            died: true,
        };
    }
    let mut r = Res::default();
    if !read_res(&format!("{base}.res"), &mut r) {
        return Confirm::Inconclusive(format!("worker ended with {st:?}"));
    }
    match r.fail {
        None => Confirm::Passes,
        Some((_, tags, msg)) => Confirm::Fails {
            tags,
            msg,
            trace: r.trace,
            marks: Vec::new(),
            log: r.log,
            died: false,
        },
    }
}

/// Shrinks a case that ends its process, each candidate in a process of its own.
fn shrink_dying(prop: &str, seed: u64, idx: u64, out: &str, file: &Path, trace: Vec<u32>, marks: Vec<usize>) {
    let own = tag_of(prop);
    let start = Instant::now();
    let run = |c: &[u32]| match alone(prop, seed, idx, out, Some(c), 3) {
        Confirm::Fails {
            tags,
            msg,
            trace,
            marks,
            log,
            ..
        } if tags & own != 0 => Some((tags, msg, trace, marks, log)),
        _ => None,
    };
    let best = shrink(trace, marks, 1500, |c| {
        if start.elapsed() > Duration::from_secs(60) {
            return None;
        }
        run(c).map(|r| (r.2, r.3))
    });
    if let Some((t, m, tr, _, lg)) = run(&best) {
        let e = engine_of(prop, seed, idx);
        write_replay(file, prop, e, release_of(idx), t, &m, &tr, &lg, (seed, idx));
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Evidence<'a> {
    prop: &'a str,
    tier: &'a str,
    seed: u64,
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    discarded: u64,
    classes: &'a BTreeMap<String, u64>,
    samples: &'a [String],
    wall: Duration,
    violations: u64,
}

fn write_evidence(e: &Evidence<'_>) {
    let mut o = String::from("{\n");
    let _ = writeln!(o, "  \"property\": {},", json_str(e.prop));
    let _ = writeln!(o, "  \"tier\": {},", json_str(e.tier));
    let _ = writeln!(o, "  \"seed\": {},", e.seed);
    let _ = writeln!(o, "  \"level\": \"exploration\",");
    let _ = writeln!(o, "  \"coverage\": {{");
    let _ = writeln!(o, "    \"evaluations\": {},", e.evals);
    let _ = writeln!(o, "    \"nontrivial\": {},", e.nontrivial);
    let _ = writeln!(o, "    \"distinct_nontrivial\": {},", e.distinct);
    let _ = writeln!(o, "    \"rule\": {},", json_str(&engines::rule(e.prop)));
    let _ = writeln!(o, "    \"discarded_foreign\": {},", e.discarded);
    let cl: Vec<String> = e
        .classes
        .iter()
        .map(|(k, v)| format!("      {}: {v}", json_str(k)))
        .collect();
    let _ = writeln!(o, "    \"classes\": {{\n{}\n    }},", cl.join(",\n"));
    let sm: Vec<String> = e
        .samples
        .iter()
        .take(6)
        .map(|s| format!("      {}", json_str(s)))
        .collect();
    let _ = writeln!(o, "    \"samples\": [\n{}\n    ]", sm.join(",\n"));
    let _ = writeln!(o, "  }},");
    let as_: Vec<String> = engines::assumptions(e.prop)
        .iter()
        .map(|s| format!("\n    {}", json_str(s)))
        .collect();
    let _ = writeln!(o, "  \"assumptions\": [{}\n  ],", as_.join(","));
    let _ = writeln!(o, "  \"wall_s\": {:.2},", e.wall.as_secs_f64());
    let _ = writeln!(o, "  \"violations\": {}\n}}", e.violations);
    let ev = verif().join("evidence");
    fs::create_dir_all(&ev).unwrap();
    fs::write(ev.join(format!("{}.json", e.prop)), o).unwrap();
}

fn run_macros(tier: &str) -> i32 {
    let start = Instant::now();
    let seed = seed_env();
    let count = match std::env::var("VERIF_CASES") {
        Ok(c) => c.parse().unwrap(),
        Err(_) => engines::cases("C20", tier),
    };
    let r = macrogen::run(seed, count, start + Duration::from_secs(engines::deadline_s(tier)));
    let code = if let Some(p) = &r.violation {
        println!("VIOLATION property=C20 replay={}", p.display());
        1
    } else if !r.inconclusive.is_empty() || r.nontrivial == 0 {
        for i in &r.inconclusive {
            println!("INCONCLUSIVE {i}");
        }
        2
    } else {
        0
    };
    write_evidence(&Evidence {
        prop: "C20",
        tier,
        seed,
        evals: r.evals,
        nontrivial: r.nontrivial,
        distinct: r.distinct,
        discarded: 0,
        classes: &r.classes,
        samples: &r.samples,
        wall: start.elapsed(),
        violations: u64::from(r.violation.is_some()),
    });
    println!(
        "C20 {tier} seed {seed}: {} invocations, {} non-trivial, {} distinct, {:.1} s, exit {code}",
        r.evals,
        r.nontrivial,
        r.distinct,
        start.elapsed().as_secs_f64()
    );
    code
}

/// `harness run PROP TIER`
pub fn run(a: &[String]) -> i32 {
    let (prop, tier) = (a[0].as_str(), a[1].as_str());
    choose_build(prop);
    let code = known(prop);
    let main = if prop == "C20" {
        run_macros(tier)
    } else {
        run_cases(prop, tier)
    };
    let _ = std::io::stdout().flush();
    if code != 0 {
        code
    } else {
        main
    }
}

/// Reports the recorded defects that are still there; 1 if one is there that is not recorded.
fn known(prop: &str) -> i32 {
    let list = fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut code = 0;
    for p in probe::of(prop) {
        let bad = match limited(false, Some(20), &["probe".into(), (*p).into()]).status() {
            Ok(s) => s.code() != Some(0),
            Err(_) => continue,
        };
        if !bad {
            continue;
        }
        let key = format!("known: property={prop} probe={p} ");
        if let Some(what) = list.lines().find_map(|l| l.strip_prefix(&key)) {
            println!("KNOWN-FINDING: property={prop} {p}: {what}");
        } else {
            let d = verif().join("out").join("replays");
            let _ = fs::create_dir_all(&d);
            let f = d.join(format!("{prop}-probe-{p}.txt"));
            let _ = fs::write(&f, format!("property={prop}\nengine=probe\nprobe={p}\n"));
            println!("VIOLATION property={prop} replay={}", f.display());
            code = 1;
        }
    }
    code
}

fn run_cases(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let seed = seed_env();
    let own = tag_of(prop);
    let cases = match std::env::var("VERIF_CASES") {
        Ok(c) => c.parse().unwrap(),
        Err(_) => engines::cases(prop, tier),
    };
    let outp = verif().join("out").join(prop);
    let _ = fs::remove_dir_all(&outp);
    fs::create_dir_all(&outp).unwrap();
    let out = outp.to_str().unwrap().to_string();
    let replays = verif().join("out").join("replays");
    fs::create_dir_all(&replays).unwrap();

    let limit = Duration::from_secs(engines::deadline_s(tier));
    let left = || limit.saturating_sub(start.elapsed()).as_secs().max(1);
    let mut ws: Vec<Worker> = (0..SHARDS)
        .map(|s| spawn_shard(prop, seed, s, cases, &out, s, left()))
        .collect();
    let mut total = Res::default();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut found: Option<(u64, Confirm)> = None;
    let mut inconclusive: Vec<String> = Vec::new();
    let mut crashes_foreign = 0u64;
    let (mut unstable, mut unstable_ends) = (0, 0);
    let mut sequence: Option<(u64, u64, Option<String>)> = None;
    'outer: loop {
        let mut alive = false;
        for w in &mut ws {
            if w.done {
                continue;
            }
            let base = format!("{out}/s{}", w.shard);
            let mut suspicious: Option<(u64, Why)> = None;
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if st.success() {
                        read_res(&format!("{base}.res"), &mut total);
                        for c in fs::read(format!("{base}.fp"))
                            .unwrap_or_default()
                            .chunks_exact(8)
                        {
                            fps.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        if let Some((i, _, _)) = total.fail.take() {
                            suspicious = Some((i, Why::Failed));
                        }
                    } else {
                        suspicious = Some((progress(&format!("{base}.progress")).0, Why::Ended));
                    }
                }
                None => {
                    alive = true;
                    let (i, _) = progress(&format!("{base}.progress"));
                    if i != w.last.0 {
                        w.last = (i, Instant::now());
                    } else if w.last.1.elapsed() > Duration::from_secs(STALL_S) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        suspicious = Some((i, Why::Ended));
                    }
                }
            }
            let Some((idx, why)) = suspicious else {
                continue;
            };
            // Once an endless loop was confirmed at length, shorter ones will do.
            let cpu = if crashes_foreign < 2 { 40 } else { 8 };
            let mut go_on = false;
            match alone(prop, seed, idx, &out, None, cpu) {
                c @ Confirm::Fails { tags, .. } if tags & own != 0 => {
                    found = Some((idx, c));
                    break 'outer;
                }
                Confirm::Fails { tags: t, msg: m, .. } => {
                    crashes_foreign += 1;
                    total.foreign.entry(tag_names(t)).or_insert((0, m)).0 += 1;
                    if crashes_foreign > 400 {
                        inconclusive.push("too many cases end the process for foreign reasons".into());
                    } else {
                        go_on = true;
                    }
                }
                // What fails only after the cases before it (the addresses of objects depend on
                // them) is looked for by running them all again.
                Confirm::Passes if why == Why::Failed => {
                    let again = again(prop, seed, w.from, idx, &out);
                    unstable += 1;
                    if again.is_some() || unstable > 2 {
                        sequence = Some((w.from, idx, again));
                        break 'outer;
                    }
                    go_on = true;
                }
                // Ended for lack of memory or stalled by the load of the machine.
                c => {
                    unstable_ends += 1;
                    if unstable_ends > 40 {
                        inconclusive.push(match c {
                            Confirm::Inconclusive(m) => format!("case {idx}: {m}"),
                            _ => format!("case {idx} ended or stalled its worker but passes on its own"),
                        });
                    } else {
                        go_on = true;
                    }
                }
            }
            if go_on && idx + SHARDS < cases && start.elapsed() < limit {
                *w = spawn_shard(prop, seed, w.shard, cases, &out, idx + SHARDS, left());
                alive = true;
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for w in &mut ws {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some((
        idx,
        Confirm::Fails {
            tags,
            msg,
            trace,
            marks,
            log,
            died,
        },
    )) = found
    {
        violations = 1;
        code = 1;
        let e = engine_of(prop, seed, idx);
        let file = replays.join(format!("{prop}-seed{seed}-case{idx}.txt"));
        write_replay(&file, prop, e, release_of(idx), tags, &msg, &trace, &log, (seed, idx));
        if died {
            shrink_dying(prop, seed, idx, &out, &file, trace, marks);
        } else {
            let args: Vec<String> = vec![
                "shrink".into(),
                prop.into(),
                seed.to_string(),
                idx.to_string(),
                file.to_str().unwrap().into(),
            ];
            if let Ok(mut c) = limited(release_of(idx), Some(60), &args).spawn() {
                let s = Instant::now();
                while c.try_wait().unwrap().is_none() {
                    if s.elapsed() > Duration::from_secs(60) {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        }
        println!("{}", fs::read_to_string(&file).unwrap_or_default());
        println!("VIOLATION property={prop} replay={}", file.display());
        if total.evals == 0 {
            total.evals = 1;
        }
    } else if let Some((from, idx, msg)) = sequence {
        violations = 1;
        code = 1;
        let file = replays.join(format!("{prop}-seed{seed}-cases{from}to{idx}.txt"));
        let msg = msg.unwrap_or_else(|| "several cases failed which pass when run again".into());
        let o = format!(
            "property={prop}\nengine=sequence\nbuild={}\nseed={seed}\nfrom={from}\ncase={idx}\nfailure={}\n",
            if release_of(idx) { "release" } else { "debug" },
            enc(&msg)
        );
        let _ = fs::write(&file, &o);
        println!("{o}VIOLATION property={prop} replay={}", file.display());
        total.evals = total.evals.max(1);
    } else if !inconclusive.is_empty() {
        code = 2;
        for i in &inconclusive {
            println!("INCONCLUSIVE {i}");
        }
    }
    for (k, (n, m)) in &total.foreign {
        println!("note: {n} cases discarded, they fail for other properties [{k}], e.g. {m}");
    }
    let discarded: u64 = total.foreign.values().map(|v| v.0).sum();
    if code == 0 && (total.nontrivial == 0 || total.evals < cases.min(1000)) {
        code = 2;
        println!("INCONCLUSIVE {} cases, {} non-trivial", total.evals, total.nontrivial);
    }
    write_evidence(&Evidence {
        prop,
        tier,
        seed,
        evals: total.evals,
        nontrivial: total.nontrivial,
        distinct: fps.len() as u64,
        discarded,
        classes: &total.classes,
        samples: &total.samples,
        wall: start.elapsed(),
        violations,
    });
    println!(
        "{prop} {tier} seed {seed}: {} cases, {} non-trivial, {} distinct, {discarded} discarded, {:.1} s, exit {code}",
        total.evals,
        total.nontrivial,
        fps.len(),
        start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    code
}
