//! Runs a property over many cases: worker processes, shrinking, evidence, and replay.
//!
//! Workers are processes rather than threads so that a case which crashes, hangs, or exhausts
//! memory can be told apart from the rest and reported.

use crate::schema::{Rng, Zoo};
use crate::source::Src;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type R = Result<(), Fail>;

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => {
        return Err($crate::engine::Fail { msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::engine::Fail { msg: format!($($a)*) });
        }
    };
}

pub struct Ctx {
    pub zoo: Zoo,
    pub thorough: bool,
    pub seed: u64,
}

/// What a case says about itself.
pub struct Case {
    /// Whether the case is non-trivial, by the property's rule.
    pub nontrivial: bool,
    pub evals: u64,
    hash: DefaultHasher,
    labels: Vec<&'static str>,
    want_sample: bool,
    sample: Option<String>,
    /// Hashes of further non-trivial cases, for a fixed case which enumerates.
    extra: Vec<u64>,
}

impl Case {
    fn new(want_sample: bool) -> Self {
        Case {
            nontrivial: false,
            evals: 1,
            hash: DefaultHasher::new(),
            labels: Vec::new(),
            want_sample,
            sample: None,
            extra: Vec::new(),
        }
    }

    /// Identifies the case, for counting distinct ones.
    pub fn key(&mut self, k: impl Hash) {
        k.hash(&mut self.hash);
    }

    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let s = f();
            self.sample = Some(crate::xmltree::clip(&s));
        }
    }

    /// Counts one more evaluation within this case.
    pub fn also(&mut self, nontrivial: bool, k: impl Hash) {
        self.evals += 1;
        if nontrivial {
            let mut h = DefaultHasher::new();
            k.hash(&mut h);
            self.extra.push(h.finish());
        }
    }
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// How many random cases, in each tier.
    pub quick: u64,
    pub thorough: u64,
    /// One random case.
    pub run: fn(&Ctx, &mut Src, &mut Case) -> R,
    /// The number of fixed cases (regressions and enumerations) in the given tier, and how to run
    /// one.
    pub fixed: fn(&Ctx) -> usize,
    pub run_fixed: fn(&Ctx, usize, &mut Case) -> R,
}

pub fn no_fixed(_: &Ctx) -> usize {
    0
}

pub fn no_run_fixed(_: &Ctx, _: usize, _: &mut Case) -> R {
    Ok(())
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = Default::default();
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(payload)".to_owned());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|c| *c.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// The message of the last panic on this thread.
pub fn last_panic() -> String {
    PANIC.with(|c| c.borrow().clone())
}

fn guarded(f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail {
            msg: format!("panicked: {}", last_panic()),
        }),
    }
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = DefaultHasher::new();
    id.hash(&mut h);
    let mut r = Rng(seed ^ h.finish().rotate_left(17) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.next()
}

const RUN_BUDGET: Duration = Duration::from_secs(25);

/// Finds a smaller sequence of choices which still fails.
fn shrink(
    mut best: Vec<u32>,
    mut msg: Fail,
    fails: &mut dyn FnMut(&[u32]) -> Option<Fail>,
    improved: &mut dyn FnMut(&[u32], &Fail),
    budget: usize,
) -> (Vec<u32>, Fail) {
    let start = Instant::now();
    let mut runs = 0;
    let mut go = |cand: &[u32]| -> Option<Fail> {
        if runs >= budget || start.elapsed() > RUN_BUDGET {
            return None;
        }
        runs += 1;
        fails(cand)
    };
    // Trailing zeros are implied.
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // Delete blocks.
        let mut size = best.len().max(1).next_power_of_two();
        while size >= 1 {
            let mut at = 0;
            while at < best.len() {
                let mut cand = best.clone();
                cand.drain(at..(at + size).min(cand.len()));
                if let Some(m) = go(&cand) {
                    best = cand;
                    msg = m;
                    improved(&best, &msg);
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
        // Zero blocks, then lower single values.
        let mut size = 8;
        while size >= 1 {
            let mut at = 0;
            while at < best.len() {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    cand[at..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(m) = go(&cand) {
                        best = cand;
                        msg = m;
                        improved(&best, &msg);
                    }
                }
                at += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            let (mut lo, mut hi) = (0, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if let Some(m) = go(&cand) {
                    hi = mid;
                    best = cand;
                    msg = m;
                    improved(&best, &msg);
                } else {
                    lo = mid + 1;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return (best, msg);
        }
    }
}

#[derive(Clone, Debug)]
enum Which {
    Fixed(usize),
    Choices(Vec<u32>),
    /// Case `from` to case `until`, one after another in one process, which then crashes though
    /// no single one of them does.
    Sequence {
        seed: u64,
        cases: u64,
        me: u64,
        of: u64,
        from: u64,
        until: u64,
    },
}

struct Failure {
    which: Which,
    msg: String,
}

fn write_failure(path: &Path, prop: &str, zoo_seed: &str, f: &Failure) {
    let which = match &f.which {
        Which::Fixed(i) => format!("fixed {}", i),
        Which::Choices(c) => format!(
            "choices {}",
            c.iter()
                .map(|c| c.to_string())
                .collect::<Vec<_>>()
                .join(" ")
        ),
        Which::Sequence {
            seed,
            cases,
            me,
            of,
            from,
            until,
        } => format!(
            "sequence {} {} {} {} {} {}",
            seed, cases, me, of, from, until
        ),
    };
    let _ = std::fs::write(
        path,
        format!(
            "property {}\nzoo-seed {}\n{}\n\n{}\n",
            prop, zoo_seed, which, f.msg
        ),
    );
}

fn read_failure(path: &Path) -> Option<Failure> {
    let s = std::fs::read_to_string(path).ok()?;
    let (head, msg) = s.split_once("\n\n")?;
    for l in head.lines() {
        if let Some(i) = l.strip_prefix("fixed ") {
            return Some(Failure {
                which: Which::Fixed(i.trim().parse().ok()?),
                msg: msg.to_owned(),
            });
        }
        if let Some(c) = l.strip_prefix("sequence ") {
            let n: Vec<u64> = c
                .split_whitespace()
                .filter_map(|c| c.parse().ok())
                .collect();
            if let [seed, cases, me, of, from, until] = n[..] {
                return Some(Failure {
                    which: Which::Sequence {
                        seed,
                        cases,
                        me,
                        of,
                        from,
                        until,
                    },
                    msg: msg.to_owned(),
                });
            }
            return None;
        }
        if let Some(c) = l.strip_prefix("choices") {
            return Some(Failure {
                which: Which::Choices(
                    c.split_whitespace()
                        .map(|c| c.parse().ok())
                        .collect::<Option<_>>()?,
                ),
                msg: msg.to_owned(),
            });
        }
    }
    None
}

fn zoo_seed() -> &'static str {
    #[cfg(feature = "zoo")]
    return crate::zoo::SEED;
    #[cfg(not(feature = "zoo"))]
    "none"
}

fn ctx(thorough: bool, seed: u64) -> Ctx {
    Ctx {
        zoo: Zoo::generate(zoo_seed().parse().unwrap_or(1)),
        thorough,
        seed,
    }
}

struct Args {
    prop: Prop,
    thorough: bool,
    seed: u64,
    cases: u64,
    fixed: bool,
    /// Which cases a worker is to run.
    range: (u64, u64),
}

/// Runs `f` with room for the harness's own recursion.
fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

fn run_choices(ctx: &Ctx, p: &Prop, choices: Vec<u32>) -> R {
    let mut src = Src::replay(choices);
    guarded(|| (p.run)(ctx, &mut src, &mut Case::new(false)))
}

fn worker(a: &Args, me: u64, of: u64, dir: &Path, deadline: Duration, verif: &Path) -> i32 {
    quiet_panics();
    let start = Instant::now();
    let ctx = ctx(a.thorough, a.seed);
    let p = &a.prop;
    let mut cur = std::fs::File::create(dir.join(format!("{}.cur", me))).unwrap();
    let fail_path = dir.join(format!("{}.fail", me));
    let (mut evals, mut nontrivial, mut random, mut fixed) = (0u64, 0u64, 0u64, 0u64);
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut cut = false;
    let known = known_findings(verif);
    let mut findings: Vec<String> = Vec::new();
    let nfixed = if a.fixed { (p.fixed)(&ctx) as u64 } else { 0 };
    for i in (0..nfixed + a.cases).filter(|i| i % of == me) {
        if i < a.range.0 || i > a.range.1 {
            continue;
        }
        if start.elapsed() > deadline {
            cut = true;
            break;
        }
        let _ = cur.seek(SeekFrom::Start(0));
        let _ = cur.write_all(format!("{:<20}", i).as_bytes());
        let mut case = Case::new(samples.len() < 3 && (i / of) % 7 == 3 || i < of);
        let r = if i < nfixed {
            fixed += 1;
            guarded(|| (p.run_fixed)(&ctx, i as usize, &mut case)).map_err(|f| Failure {
                which: Which::Fixed(i as usize),
                msg: f.msg,
            })
        } else {
            random += 1;
            let mut src = Src::fresh(case_seed(a.seed, p.id, i - nfixed));
            guarded(|| (p.run)(&ctx, &mut src, &mut case)).map_err(|f| Failure {
                which: Which::Choices(src.choices.clone()),
                msg: f.msg,
            })
        };
        if let Err(f) = &r {
            if i < nfixed && known.iter().any(|k| k.property == p.id && k.text == f.msg) {
                findings.push(f.msg.clone());
                continue;
            }
        }
        if let Err(f) = r {
            write_failure(&fail_path, p.id, zoo_seed(), &f);
            if let Which::Choices(c) = f.which {
                let _ = cur.seek(SeekFrom::Start(0));
                let _ = cur.write_all(b"shrinking           ");
                shrink(
                    c,
                    Fail { msg: f.msg },
                    &mut |c| run_choices(&ctx, p, c.to_vec()).err(),
                    &mut |c, m| {
                        write_failure(
                            &fail_path,
                            p.id,
                            zoo_seed(),
                            &Failure {
                                which: Which::Choices(c.to_vec()),
                                msg: m.msg.clone(),
                            },
                        )
                    },
                    20_000,
                );
            }
            return 1;
        }
        evals += case.evals;
        for l in case.labels {
            *labels.entry(l).or_default() += 1;
        }
        if case.nontrivial {
            nontrivial += 1;
            hashes.insert(case.hash.finish());
        }
        nontrivial += case.extra.len() as u64;
        hashes.extend(case.extra);
        if let Some(s) = case.sample {
            if samples.len() < 4 && case.nontrivial {
                samples.push(s);
            }
        }
    }
    let mut out = format!(
        "evals {}\nnontrivial {}\nrandom {}\nfixed {}\ncut {}\n",
        evals, nontrivial, random, fixed, cut as u8
    );
    for (l, n) in labels {
        let _ = writeln!(out, "label {} {}", n, l);
    }
    for s in samples {
        let _ = writeln!(out, "sample {}", json_str(&s));
    }
    for f in findings {
        let _ = writeln!(out, "known {}", f);
    }
    let bytes: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("{}.hashes", me)), bytes).unwrap();
    std::fs::write(dir.join(format!("{}.done", me)), out).unwrap();
    0
}

/// Runs one case on its own, noting the choices it makes.
fn single(a: &Args, i: u64, trace: &Path) -> i32 {
    quiet_panics();
    let ctx = ctx(a.thorough, a.seed);
    let nfixed = (a.prop.fixed)(&ctx) as u64;
    let r = if i < nfixed {
        guarded(|| (a.prop.run_fixed)(&ctx, i as usize, &mut Case::new(false)))
    } else {
        let mut src = Src::fresh(case_seed(a.seed, a.prop.id, i - nfixed));
        src.trace(std::fs::File::create(trace).unwrap());
        guarded(|| (a.prop.run)(&ctx, &mut src, &mut Case::new(false)))
    };
    r.is_err() as i32
}

/// Replays a failure in this process.
fn replay(a: &Args, path: &Path) -> i32 {
    quiet_panics();
    let f = match read_failure(path) {
        Some(f) => f,
        None => {
            println!("can't read {}", path.display());
            return 2;
        }
    };
    let ctx = ctx(a.thorough, a.seed);
    let r = match f.which {
        Which::Fixed(i) => guarded(|| (a.prop.run_fixed)(&ctx, i, &mut Case::new(false))),
        Which::Choices(c) => run_choices(&ctx, &a.prop, c),
        Which::Sequence { .. } => {
            let dir = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&dir);
            let again = (0..5).any(|_| sequence(a, &f.which, &dir, Duration::from_secs(600)));
            let _ = std::fs::remove_dir_all(&dir);
            if again {
                Err(Fail { msg: f.msg })
            } else {
                Ok(())
            }
        }
    };
    match r {
        Ok(()) => {
            println!("the property holds on {}", path.display());
            0
        }
        Err(f) => {
            println!("{}", f.msg);
            println!("VIOLATION property={} replay={}", a.prop.id, path.display());
            1
        }
    }
}

/// Limits the process's CPU seconds rather than how long it takes, which says more about the
/// machine than about the case.
fn spawn(args: &[String], cpu: Option<u64>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut limit = String::new();
    if std::env::var_os("VH_NO_LIMIT").is_none() {
        limit.push_str("ulimit -v 6000000;");
    }
    if let Some(s) = cpu {
        let _ = write!(limit, "ulimit -S -t {};", s);
    }
    Command::new("sh")
        .arg("-c")
        .arg(format!("ulimit -c 0; {} exec \"$0\" \"$@\"", limit))
        .arg(exe)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("can't start a worker")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Code(i32),
    Crash,
    /// It used up its CPU time.
    Hang,
    /// It's taking longer than it should, for whatever reason.
    Slow,
}

fn end(s: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    const SIGKILL: i32 = 9;
    const SIGXCPU: i32 = 24;
    match (s.code(), s.signal()) {
        (Some(c), _) => End::Code(c),
        (_, Some(SIGXCPU)) => End::Hang,
        // Not something a case does to itself.
        (_, Some(SIGKILL)) => End::Slow,
        _ => End::Crash,
    }
}

fn wait(child: &mut std::process::Child, limit: Duration) -> End {
    let start = Instant::now();
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return end(s);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return End::Slow;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// Whether the sequence crashes, or fails, when run once more.
fn sequence(a: &Args, which: &Which, dir: &Path, limit: Duration) -> bool {
    let n = match which {
        Which::Sequence {
            seed,
            cases,
            me,
            of,
            from,
            until,
        } => [*seed, *cases, *me, *of, *from, *until],
        _ => return false,
    };
    let mut v: Vec<String> = [
        a.prop.id,
        "--tier",
        if a.thorough { "thorough" } else { "quick" },
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if !a.fixed {
        v.push("--no-fixed".to_owned());
    }
    for (k, i) in [("--seed", 0), ("--cases", 1), ("--from", 4), ("--until", 5)] {
        v.push(k.to_owned());
        v.push(n[i].to_string());
    }
    v.push("--worker".to_owned());
    v.push(n[2].to_string());
    v.push(n[3].to_string());
    v.push(dir.display().to_string());
    v.push("3600".to_owned());
    let mut c = spawn(&v, None);
    matches!(wait(&mut c, limit), End::Crash | End::Code(1))
}

/// For a crash which the last case alone doesn't cause, as is usual if memory was corrupted:
/// finds a short sequence of cases which ends in a crash.
fn confirm_sequence(a: &Args, me: u64, of: u64, until: u64, dir: &Path) -> Option<Failure> {
    let start = Instant::now();
    let at = |from| Which::Sequence {
        seed: a.seed,
        cases: a.cases,
        me,
        of,
        from,
        until,
    };
    let again = |from: u64, tries: usize| {
        (0..tries).any(|_| {
            let left = Duration::from_secs(200).saturating_sub(start.elapsed());
            sequence(a, &at(from), dir, left)
        })
    };
    if !again(0, 4) {
        return None;
    }
    let mut from = 0;
    let mut back = of;
    while start.elapsed() < Duration::from_secs(60) && back < until {
        if again(until - back, 2) {
            from = until - back;
            break;
        }
        back *= 4;
    }
    Some(Failure {
        which: at(from),
        msg: format!(
            "the process crashed in case {}, though that case alone doesn't make it crash",
            until
        ),
    })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const HANG: Duration = Duration::from_secs(40);

struct Known {
    property: String,
    text: String,
}

/// Reads the findings which aren't repaired: `known: property=<id> <text>`, where the text must
/// be the whole description of a fixed case's failure.
fn known_findings(verif: &Path) -> Vec<Known> {
    std::fs::read_to_string(verif.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, text) = l.split_once(' ')?;
            Some(Known {
                property: property.to_owned(),
                text: text.to_owned(),
            })
        })
        .collect()
}

fn supervise(a: &Args, verif: &Path) -> i32 {
    let start = Instant::now();
    let p = &a.prop;
    let scratch = verif
        .join("target/run")
        .join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let n: u64 = std::env::var("VH_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64));
    let deadline = if a.thorough { 3 * 3600 } else { 420 };
    let args = |mode: &[String]| -> Vec<String> {
        let mut v = vec![
            p.id.to_owned(),
            "--tier".to_owned(),
            (if a.thorough { "thorough" } else { "quick" }).to_owned(),
            "--seed".to_owned(),
            a.seed.to_string(),
            "--cases".to_owned(),
            a.cases.to_string(),
        ];
        if !a.fixed {
            v.push("--no-fixed".to_owned());
        }
        v.extend_from_slice(mode);
        v
    };
    let mut workers: Vec<_> = (0..n)
        .map(|me| {
            let c = spawn(
                &args(&[
                    "--worker".to_owned(),
                    me.to_string(),
                    n.to_string(),
                    scratch.display().to_string(),
                    deadline.to_string(),
                ]),
                None,
            );
            (me, c, String::new(), Instant::now(), None::<End>)
        })
        .collect();
    let mut stop = false;
    while !stop && workers.iter().any(|w| w.4.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        for w in workers.iter_mut().filter(|w| w.4.is_none()) {
            if let Some(s) = w.1.try_wait().unwrap() {
                w.4 = Some(end(s));
                stop |= w.4 != Some(End::Code(0));
                continue;
            }
            let now =
                std::fs::read_to_string(scratch.join(format!("{}.cur", w.0))).unwrap_or_default();
            if now != w.2 {
                w.2 = now;
                w.3 = Instant::now();
            } else if w.3.elapsed() > HANG && !w.2.starts_with("shrinking") {
                let _ = w.1.kill();
                let _ = w.1.wait();
                w.4 = Some(End::Slow);
                stop = true;
            }
        }
    }
    for w in workers.iter_mut().filter(|w| w.4.is_none()) {
        let _ = w.1.kill();
        let _ = w.1.wait();
    }

    let mut failure: Option<Failure> = None;
    let mut broken: Option<String> = None;
    for (me, _, _, _, end) in &workers {
        match end {
            Some(End::Code(1)) => {
                failure = read_failure(&scratch.join(format!("{}.fail", me)));
                if failure.is_none() {
                    broken = Some("a worker failed without saying why".to_owned());
                }
            }
            Some(End::Code(0)) | None => {}
            Some(end) => {
                // If it crashed while shrinking, there's a failure on file.
                if let Some(f) = read_failure(&scratch.join(format!("{}.fail", me))) {
                    failure = Some(f);
                    continue;
                }
                let cur = std::fs::read_to_string(scratch.join(format!("{}.cur", me)))
                    .unwrap_or_default();
                match cur.trim().parse::<u64>() {
                    Ok(i) => match confirm(&args, i, &scratch, p) {
                        Some(f) => failure = Some(f),
                        None if *end == End::Crash => {
                            failure = confirm_sequence(a, *me, n, i, &scratch);
                            if failure.is_none() {
                                broken = Some(format!(
                                    "a worker crashed in case {}, which isn't reproducible",
                                    i
                                ));
                            }
                        }
                        None => {
                            broken = Some(format!(
                                "a worker ended with {:?} in case {}, which isn't reproducible",
                                end, i
                            ))
                        }
                    },
                    Err(_) => broken = Some(format!("a worker ended with {:?}", end)),
                }
            }
        }
        if failure.is_some() {
            break;
        }
    }

    let mut stats = Stats::default();
    for me in 0..n {
        stats.add(&scratch, me);
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = start.elapsed().as_secs_f64();
    let mut code = 0;
    stats.known.sort();
    for k in &stats.known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if let Some(f) = &failure {
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut h = DefaultHasher::new();
        format!("{:?}{}", f.which, f.msg).hash(&mut h);
        let path = dir.join(format!("{}-{:016x}.txt", p.id, h.finish()));
        write_failure(&path, p.id, zoo_seed(), f);
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if let Some(b) = &broken {
        println!("the check itself failed: {}", b);
        code = 2;
    }
    write_evidence(a, verif, &stats, wall, code == 1);
    println!(
        "{}: {} evaluations ({} fixed and {} random cases), {} distinct non-trivial, {:.1} s{}",
        p.id,
        stats.evals,
        stats.fixed,
        stats.random,
        stats.hashes.len(),
        wall,
        if stats.cut { " (cut short)" } else { "" },
    );
    code
}

/// Reproduces a crash or hang on its own, and shrinks it.
fn confirm(
    args: &dyn Fn(&[String]) -> Vec<String>,
    i: u64,
    scratch: &Path,
    p: &Prop,
) -> Option<Failure> {
    let trace = scratch.join("trace");
    let mut c = spawn(
        &args(&[
            "--single".to_owned(),
            i.to_string(),
            trace.display().to_string(),
        ]),
        Some(60),
    );
    let e = wait(&mut c, Duration::from_secs(300));
    let msg = match e {
        End::Code(0) | End::Slow => return None,
        End::Code(1) => "the case failed, but only on its own",
        End::Hang => "the case used up a minute of CPU time, where a few milliseconds are usual",
        _ => "the case crashed the process (stack overflow, out of memory, or abort)",
    };
    let fail = || Fail {
        msg: msg.to_owned(),
    };
    let choices = match std::fs::read_to_string(&trace) {
        Ok(t) => t.lines().filter_map(|l| l.parse().ok()).collect(),
        Err(_) => {
            return Some(Failure {
                which: Which::Fixed(i as usize),
                msg: msg.to_owned(),
            })
        }
    };
    let cand = scratch.join("cand");
    let budget = if e == End::Hang { 4 } else { 250 };
    let (best, m) = shrink(
        choices,
        fail(),
        &mut |c| {
            write_failure(
                &cand,
                p.id,
                zoo_seed(),
                &Failure {
                    which: Which::Choices(c.to_vec()),
                    msg: String::new(),
                },
            );
            let mut c = spawn(
                &args(&["--replay".to_owned(), cand.display().to_string()]),
                Some(10),
            );
            let e2 = wait(&mut c, Duration::from_secs(60));
            (e2 == e && e != End::Code(1)).then(fail)
        },
        &mut |_, _| {},
        budget,
    );
    Some(Failure {
        which: Which::Choices(best),
        msg: m.msg,
    })
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    random: u64,
    fixed: u64,
    cut: bool,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    hashes: HashSet<u64>,
    known: Vec<String>,
}

impl Stats {
    fn add(&mut self, dir: &Path, me: u64) {
        let text = std::fs::read_to_string(dir.join(format!("{}.done", me))).unwrap_or_default();
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            match k {
                "evals" => self.evals += v.parse::<u64>().unwrap(),
                "nontrivial" => self.nontrivial += v.parse::<u64>().unwrap(),
                "random" => self.random += v.parse::<u64>().unwrap(),
                "fixed" => self.fixed += v.parse::<u64>().unwrap(),
                "cut" => self.cut |= v == "1",
                "known" => self.known.push(v.to_owned()),
                "label" => {
                    let (n, l) = v.split_once(' ').unwrap();
                    *self.labels.entry(l.to_owned()).or_default() += n.parse::<u64>().unwrap();
                }
                "sample" => {
                    if self.samples.len() < 8 {
                        self.samples.push(v.to_owned())
                    }
                }
                _ => {}
            }
        }
        let bytes = std::fs::read(dir.join(format!("{}.hashes", me))).unwrap_or_default();
        self.hashes.extend(
            bytes
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap())),
        );
    }
}

fn write_evidence(a: &Args, verif: &Path, s: &Stats, wall: f64, violated: bool) {
    let labels = s
        .labels
        .iter()
        .map(|(l, n)| format!("{}: {}", json_str(l), n))
        .collect::<Vec<_>>()
        .join(", ");
    let assumptions = a
        .prop
        .assumptions
        .iter()
        .map(|s| json_str(s))
        .collect::<Vec<_>>()
        .join(", ");
    let samples = if s.samples.is_empty() {
        json_str("(none: the run ended early)")
    } else {
        s.samples.join(",\n    ")
    };
    let out = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"nontrivial\": {},\n    \"distinct_nontrivial\": {},\n    \"random_cases\": {},\n    \"fixed_cases\": {},\n    \"cut_short\": {},\n    \"known_findings\": {},\n    \"zoo_seed\": {},\n    \"labels\": {{{}}},\n    \"rule\": {},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        json_str(a.prop.id),
        if a.thorough { "thorough" } else { "quick" },
        a.seed,
        json_str(a.prop.level),
        s.evals,
        s.nontrivial,
        s.hashes.len(),
        s.random,
        s.fixed,
        s.cut,
        s.known.len(),
        json_str(zoo_seed()),
        labels,
        json_str(a.prop.rule),
        samples,
        assumptions,
        wall,
        violated as u8,
    );
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", a.prop.id)), out);
}

pub fn main(props: &[Prop]) -> ! {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str, n: usize| -> Option<&String> {
        argv.iter()
            .position(|a| a == k)
            .and_then(|i| argv.get(i + n))
    };
    let prop = match argv
        .first()
        .and_then(|id| props.iter().find(|p| p.id == *id))
    {
        Some(p) => *p,
        None => {
            println!(
                "usage: vh PROPERTY [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]\nproperties: {}",
                props.iter().map(|p| p.id).collect::<Vec<_>>().join(" ")
            );
            std::process::exit(2);
        }
    };
    let env = |k: &str| std::env::var(k).ok();
    let thorough = get("--tier", 1)
        .cloned()
        .or_else(|| env("VERIF_TIER"))
        .map_or(false, |t| t == "thorough");
    let seed = get("--seed", 1)
        .cloned()
        .or_else(|| env("VERIF_SEED"))
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let a = Args {
        prop,
        thorough,
        seed,
        cases: get("--cases", 1)
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { prop.thorough } else { prop.quick }),
        fixed: !argv.iter().any(|a| a == "--no-fixed"),
        range: (
            get("--from", 1).and_then(|s| s.parse().ok()).unwrap_or(0),
            get("--until", 1)
                .and_then(|s| s.parse().ok())
                .unwrap_or(u64::MAX),
        ),
    };
    let verif = PathBuf::from(
        env("VERIF_DIR").unwrap_or_else(|| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_owned()),
    );
    let verif = verif.canonicalize().unwrap_or(verif);
    if let Some(me) = get("--worker", 1) {
        let me = me.parse().unwrap();
        let of = get("--worker", 2).unwrap().parse().unwrap();
        let dir = PathBuf::from(get("--worker", 3).unwrap());
        let deadline = Duration::from_secs(get("--worker", 4).unwrap().parse().unwrap());
        std::process::exit(big_stack(move || {
            worker(&a, me, of, &dir, deadline, &verif)
        }));
    }
    if let Some(i) = get("--single", 1) {
        let i = i.parse().unwrap();
        let trace = PathBuf::from(get("--single", 2).unwrap());
        std::process::exit(big_stack(move || single(&a, i, &trace)));
    }
    if let Some(path) = get("--replay", 1) {
        let path = PathBuf::from(path);
        std::process::exit(big_stack(move || replay(&a, &path)));
    }
    std::process::exit(supervise(&a, &verif));
}
