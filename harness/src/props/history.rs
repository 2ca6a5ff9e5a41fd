//! Reads and writes which follow, interrupt, or alternate with one another.

use crate::engine::{last_panic, Case, Ctx, Prop, R};
use crate::io::{Fault, Sink, Source};
use crate::model::{TVal, Val};
use crate::points::{set_hook, Pointed};
use crate::props::builder::{self, Misuse};
use crate::props::visitor::{self, Act, Swallow};
use crate::scen;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{render, Style};
use crate::zoo::{self, SerOpts};
use crate::{ensure, fail};
use std::cell::{Cell, RefCell};
use std::io::ErrorKind;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub const PROPS: &[Prop] = &[Prop {
    id: "C21",
    level: "exploration",
    rule: "A case is two to six operations: reads of valid and mutated documents as derived types or by scripted visitors, from sources which divide the bytes and may fail; writes of values and of trees through the builder interface, with misuse and failing sinks; and conversions of text. Each is carried out alone, on a thread of its own. Then they're carried out again: one after the other in a random order with repetitions; within one another, up to three levels deep, at random calls of a source, a sink, or a user's code, any of which may also panic; and on several threads which take turns at such calls by a random schedule. Every outcome (value, log of what visitors saw, output, error) has to be that of the operation alone, and errors which are kept have to stay as they were. Non-trivial: one operation was interrupted by another.",
    assumptions: &[
        "threads take turns, so that races between two instructions of the library aren't explored",
        "the harness's own types don't depend on one another's state",
    ],
    quick: 20_000,
    thorough: 400_000,
    run: c21,
    fixed: |_| FIXED.len(),
    run_fixed: |c, i, k| (FIXED[i])(c, k),
}];

// What there is to do.

#[derive(Debug)]
struct In {
    text: String,
    sizes: Vec<usize>,
    interrupt: usize,
    fail: Option<(usize, ErrorKind)>,
}

#[derive(Debug)]
struct Out {
    most: usize,
    fail: Option<(usize, Fault)>,
    indent: bool,
    decl: bool,
}

#[derive(Debug)]
enum Op {
    Read(TyId, In),
    ReadStr(TyId, String),
    Visit((Act, Swallow), In),
    Write(TyId, Val, Option<Name>, Out),
    WriteString(TyId, Val, Option<Name>, Out),
    Build(builder::Node, Out),
    BuildString(builder::Node, Out),
    Parse(TyId, String),
    Print(TyId, TVal),
}

type Kept = Option<static_xml::de::Error>;

fn shown<T: std::fmt::Debug>(r: Result<T, static_xml::de::Error>) -> (String, Kept) {
    match r {
        Ok(v) => (format!("Ok({:?})", v), None),
        Err(e) => (show_error(&e), Some(e)),
    }
}

fn show_error(e: &static_xml::de::Error) -> String {
    let source = std::error::Error::source(e).map(|s| s.to_string());
    format!("Err({} / {:?} / {:?})", e, e, source)
}

impl In {
    fn source(&self) -> Pointed<Source<'_>> {
        let mut s = Source::new(self.text.as_bytes());
        s.sizes = self.sizes.clone();
        s.interrupt = self.interrupt;
        s.fail = self.fail;
        Pointed(s)
    }
}

impl Out {
    fn sink(&self) -> Pointed<Sink> {
        let mut s = Sink::new();
        s.most = self.most;
        s.fail = self.fail;
        Pointed(s)
    }

    fn opts<'a>(&self, name: &'a Option<Name>) -> SerOpts<'a> {
        SerOpts {
            indent: self.indent,
            no_decl: !self.decl,
            name: name.as_ref(),
        }
    }
}

fn written<E: std::fmt::Display>(r: Result<(), E>, s: Pointed<Sink>) -> (String, Kept) {
    let r = r.map_err(|e| e.to_string());
    (
        format!("{:?}, {:?}", r, String::from_utf8_lossy(&s.0.data)),
        None,
    )
}

fn perform(op: &Op) -> (String, Kept) {
    match op {
        Op::Read(id, i) => shown((zoo::entry(*id).de)(&mut i.source())),
        Op::ReadStr(id, s) => shown((zoo::entry(*id).de_str)(s)),
        Op::Visit(plan, i) => {
            visitor::swap_state((Some(plan.clone()), vec![]));
            let r = static_xml::read::<_, visitor::Root>(i.source()).map(|_| ());
            let (s, e) = shown(r);
            let (_, log) = visitor::swap_state((None, vec![]));
            (format!("{} after{}", s, visitor::events(&log)), e)
        }
        Op::Write(id, v, n, o) => {
            let mut s = o.sink();
            let r = (zoo::entry(*id).ser)(v, o.opts(n), &mut s);
            written(r, s)
        }
        Op::WriteString(id, v, n, o) => (
            format!("{:?}", (zoo::entry(*id).ser_string)(v, o.opts(n))),
            None,
        ),
        Op::Build(n, o) => {
            let mut s = o.sink();
            let r = static_xml::serialize(n)
                .perform_indent(o.indent)
                .write_document_declaration(o.decl)
                .to(&mut s);
            written(r, s)
        }
        Op::BuildString(n, o) => {
            let r = static_xml::serialize(n)
                .perform_indent(o.indent)
                .write_document_declaration(o.decl)
                .to_string();
            (format!("{:?}", r.map_err(|e| e.to_string())), None)
        }
        Op::Parse(id, s) => {
            let r = zoo::entry(*id).parse.expect("a text type")(s);
            (format!("{:?}", r.map_err(|e| e.to_string())), None)
        }
        Op::Print(id, v) => {
            let r = zoo::entry(*id).to_text.expect("a text type")(v);
            (format!("{:?}", r), None)
        }
    }
}

// When to do it.

/// Carries out an operation, and others at some of its points.
#[derive(Clone, Debug)]
struct Run {
    op: usize,
    nested: Vec<(usize, Run)>,
    panic_at: Option<usize>,
}

impl Run {
    fn alone(op: usize) -> Run {
        Run {
            op,
            nested: vec![],
            panic_at: None,
        }
    }
}

struct Planned;

/// An operation under way.
struct Frame {
    run: Arc<Run>,
    points: usize,
}

struct Done {
    op: usize,
    points: usize,
    panicked: bool,
    may_panic: bool,
    how: String,
    outcome: String,
}

thread_local! {
    static OPS: RefCell<Arc<Vec<Op>>> = Default::default();
    static FRAMES: RefCell<Vec<Frame>> = Default::default();
    static DONE: RefCell<Vec<Done>> = Default::default();
    static KEPT: RefCell<Vec<(static_xml::de::Error, String)>> = Default::default();
    static TURN: RefCell<Option<(Arc<Turns>, usize)>> = Default::default();
    /// Whether another operation was carried out during one.
    static INTERRUPTED: Cell<bool> = const { Cell::new(false) };
}

fn at_point() {
    let turn = TURN.with(|t| t.borrow().clone());
    if let Some((t, me)) = turn {
        t.pass(me);
    }
    let (run, n) = match FRAMES.with(|f| {
        f.borrow_mut().last_mut().map(|top| {
            top.points += 1;
            (top.run.clone(), top.points - 1)
        })
    }) {
        Some(f) => f,
        None => return,
    };
    for (at, r) in &run.nested {
        if *at == n {
            INTERRUPTED.with(|i| i.set(true));
            exec(r, &format!("at point {} of operation {}", n, run.op));
        }
    }
    if run.panic_at == Some(n) {
        panic_any(Planned);
    }
}

fn exec(run: &Run, how: &str) {
    let ops = OPS.with(|o| o.borrow().clone());
    let saved = visitor::swap_state((None, vec![]));
    FRAMES.with(|f| {
        f.borrow_mut().push(Frame {
            run: Arc::new(run.clone()),
            points: 0,
        })
    });
    let depth = FRAMES.with(|f| f.borrow().len());
    let r = catch_unwind(AssertUnwindSafe(|| perform(&ops[run.op])));
    let points = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        f.truncate(depth);
        f.pop().map_or(0, |f| f.points)
    });
    visitor::swap_state(saved);
    let panicked = matches!(&r, Err(p) if p.is::<Planned>());
    let outcome = match r {
        Ok((s, kept)) => {
            if let Some(e) = kept {
                let s = show_error(&e);
                KEPT.with(|k| k.borrow_mut().push((e, s)));
            }
            s
        }
        Err(_) if panicked => "a panic as planned".to_owned(),
        Err(_) => format!("a panic: {}", last_panic()),
    };
    DONE.with(|d| {
        d.borrow_mut().push(Done {
            op: run.op,
            points,
            panicked,
            may_panic: run.panic_at.is_some(),
            how: how.to_owned(),
            outcome,
        })
    });
}

/// Whose turn it is.
struct Turns {
    state: Mutex<State>,
    changed: Condvar,
}

struct State {
    turn: usize,
    alive: Vec<bool>,
    schedule: Vec<usize>,
    next: usize,
    /// How many times a thread had to wait for another in the midst of something.
    switches: usize,
}

impl State {
    fn choose(&mut self) {
        let alive: Vec<usize> = (0..self.alive.len()).filter(|&i| self.alive[i]).collect();
        if alive.is_empty() {
            return;
        }
        let n = self.schedule.get(self.next).copied().unwrap_or(0);
        self.next += 1;
        self.turn = alive[n % alive.len()];
    }
}

impl Turns {
    fn wait(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.turn != me {
            s = self.changed.wait(s).unwrap();
        }
    }

    fn pass(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        if s.next >= s.schedule.len() {
            // From now on, one after the other.
            return;
        }
        s.choose();
        if s.turn != me {
            s.switches += 1;
            drop(s);
            self.changed.notify_all();
            self.wait(me);
        }
    }

    fn finish(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.alive[me] = false;
        s.choose();
        drop(s);
        self.changed.notify_all();
    }
}

struct Report {
    done: Vec<Done>,
    interrupted: bool,
    /// Errors which changed after the fact.
    changed: Vec<String>,
}

/// Starts a thread which does what `f` does. It's left behind if it doesn't finish.
fn start(ops: &Arc<Vec<Op>>, f: impl FnOnce() + Send + 'static) -> Receiver<Report> {
    let ops = ops.clone();
    let (send, receive) = channel();
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            OPS.with(|o| *o.borrow_mut() = ops);
            set_hook(Some(at_point));
            f();
            let changed = KEPT.with(|k| {
                let k = k.borrow();
                let now = k.iter().map(|(e, s)| (show_error(e), s));
                now.filter(|(now, s)| now != *s)
                    .map(|(now, s)| format!("{}\nis now {}", s, now))
                    .collect()
            });
            KEPT.with(|k| k.borrow_mut().clear());
            let _ = send.send(Report {
                done: DONE.with(|d| std::mem::take(&mut *d.borrow_mut())),
                interrupted: INTERRUPTED.with(|i| i.get()),
                changed,
            });
        })
        .expect("a thread");
    receive
}

/// A case takes milliseconds.
const PATIENCE: Duration = Duration::from_secs(100);

fn collect(r: Receiver<Report>, what: &dyn Fn() -> String) -> Result<Report, crate::engine::Fail> {
    match r.recv_timeout(PATIENCE) {
        Ok(r) => Ok(r),
        Err(e) => fail!("operations didn't finish ({}): {}", e, what()),
    }
}

// The generator.

fn gen_in(src: &mut Src, text: String) -> In {
    let sizes = match src.below(3) {
        0 => vec![],
        1 => vec![1 + src.below(9); text.len()],
        _ => (0..src.below(20)).map(|_| 1 + src.small(40)).collect(),
    };
    let fail = match src.pct(15) {
        true => Some((
            src.below(text.len() + 1),
            *src.pick(&[ErrorKind::Other, ErrorKind::TimedOut]),
        )),
        false => None,
    };
    In {
        interrupt: if src.pct(15) { 1 + src.below(4) + 1 } else { 0 },
        text,
        sizes,
        fail,
    }
}

fn gen_out(src: &mut Src) -> Out {
    Out {
        most: [0, 0, 1, 7][src.below(4)],
        fail: if src.pct(20) {
            Some((
                src.below(30),
                *src.pick(&[
                    Fault::Broken(ErrorKind::Other),
                    Fault::Once(ErrorKind::Other),
                    Fault::Full,
                ]),
            ))
        } else {
            None
        },
        indent: src.pct(25),
        decl: !src.pct(25),
    }
}

fn gen_op(src: &mut Src, ctx: &Ctx) -> Option<Op> {
    let zoo = &ctx.zoo;
    let counted = |id: TyId| zoo.any(id, &|t| matches!(t, Ty::Text(TextTy::Prim(Prim::Canary))));
    Some(match src.weighted(&[30, 8, 25, 25, 6, 30, 6, 3, 3]) {
        k @ (0 | 1) => {
            let hooked = src.pct(40);
            let id = scen::pick_type(src, zoo, &|id| !hooked || counted(id));
            let mutations = [0, 0, 1, 2][src.below(4)];
            let (e, _) = scen::document(src, zoo, id, mutations)?;
            let style = match src.pct(40) {
                true => Style::VARIED,
                false => Style::PLAIN,
            };
            let text = render(src, &e, style).text;
            match k {
                0 => Op::Read(id, gen_in(src, text)),
                _ => Op::ReadStr(id, text),
            }
        }
        2 => {
            let mut left = 2 + src.below(14);
            let tree = visitor::gen_tree(src, 1, &mut left);
            let act = visitor::gen_act(src, &tree, &mut 0);
            let style = match src.pct(60) {
                true => Style::VARIED,
                false => Style::PLAIN,
            };
            let text = render(src, &tree, style).text;
            Op::Visit(act, gen_in(src, text))
        }
        k @ (3 | 4) => {
            let hooked = src.pct(40);
            let id = scen::pick_type(src, zoo, &|id| !hooked || counted(id));
            let mut v = zoo.gen_val(src, id, 0, false)?;
            if src.pct(15) {
                zoo.spoil(src, id, &mut v);
            }
            let name = match zoo.element(id).is_none() || src.pct(20) {
                true => Some(Name::new(src.pick(&["", "urn:x"]), "root")),
                false => None,
            };
            let o = gen_out(src);
            match k {
                3 => Op::Write(id, v, name, o),
                _ => Op::WriteString(id, v, name, o),
            }
        }
        k @ (5 | 6) => {
            let swallow = if src.pct(30) { 20 } else { 0 };
            let mut n = builder::gen_tree(src, swallow);
            if src.pct(30) {
                let m = match src.below(4) {
                    0 => Misuse::Unstarted,
                    1 => Misuse::Unfinished(src.below(2)),
                    2 => Misuse::FailAttr(src.below(2)),
                    _ => Misuse::FailChild(src.below(2)),
                };
                let mut at = 1 + src.small(8);
                n.find_mut(false, &mut |n, direct| {
                    at -= 1;
                    if at == 0
                        && (direct || matches!(m, Misuse::FailAttr(_) | Misuse::FailChild(_)))
                    {
                        n.misuse = Some(m);
                    }
                    at == 0
                });
            }
            let o = gen_out(src);
            match k {
                5 => Op::Build(n, o),
                _ => Op::BuildString(n, o),
            }
        }
        k => {
            let id = scen::pick_type(src, zoo, &|id| zoo.text(id).is_some());
            let v = zoo.gen_text_any(src, id);
            match k {
                7 => {
                    let s = zoo.to_text(id, &v).unwrap_or_else(|| "bad".to_owned());
                    let extra = *src.pick(&["", " ", "x", "\n"]);
                    Op::Parse(id, format!("{}{}", s, extra))
                }
                _ => Op::Print(id, v),
            }
        }
    })
}

fn gen_run(src: &mut Src, points: &[usize], depth: usize, left: &mut usize) -> Run {
    let op = src.below(points.len());
    let mut run = Run::alone(op);
    *left = left.saturating_sub(1);
    if depth < 3 && points[op] > 0 {
        let n = match depth {
            0 => 1 + src.small(4),
            _ => src.small(3),
        };
        for _ in 0..n {
            if *left > 0 {
                let at = src.below(points[op]);
                run.nested.push((at, gen_run(src, points, depth + 1, left)));
            }
        }
    }
    if points[op] > 0 && src.pct(12) {
        run.panic_at = Some(src.below(points[op]));
    }
    run
}

// The verdict.

fn describe(ops: &[Op]) -> String {
    let mut s = String::new();
    for (i, o) in ops.iter().enumerate() {
        s.push_str(&format!("\noperation {}: {:?}", i, o));
    }
    crate::xmltree::clip(&s).to_string()
}

fn judge(r: &Report, alone: &[String], ops: &[Op], what: &str) -> R {
    for d in &r.done {
        if d.may_panic && d.panicked {
            continue;
        }
        ensure!(
            d.outcome == alone[d.op],
            "{}: operation {} ({}) yielded\n{}\nwhich alone yields\n{}\n{}",
            what,
            d.op,
            d.how,
            d.outcome,
            alone[d.op],
            describe(ops)
        );
    }
    if let Some(c) = r.changed.first() {
        fail!("{}: the error {}\n{}", what, c, describe(ops));
    }
    Ok(())
}

/// Carries out each operation on a thread of its own; yields the outcomes, and how many points
/// there are.
fn baseline(ops: &Arc<Vec<Op>>) -> Result<(Vec<String>, Vec<usize>), crate::engine::Fail> {
    let mut alone = Vec::new();
    let mut points = Vec::new();
    for i in 0..ops.len() {
        let r = collect(start(ops, move || exec(&Run::alone(i), "alone")), &|| {
            format!("{:?}", ops[i])
        })?;
        ensure!(r.changed.is_empty(), "an error changed: {}", r.changed[0]);
        alone.push(r.done[0].outcome.clone());
        points.push(r.done[0].points);
    }
    Ok((alone, points))
}

fn c21(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let n = 2 + src.small(5);
    let mut ops = Vec::new();
    for _ in 0..n {
        ops.extend(gen_op(src, ctx));
    }
    if ops.is_empty() {
        return Ok(());
    }
    let ops = Arc::new(ops);
    case.key(format!("{:?}", ops));
    case.sample(|| describe(&ops));
    let (alone, points) = baseline(&ops)?;
    for o in alone.iter() {
        case.label(match o {
            o if o.contains("panic") => "an operation panics by itself",
            o if o.contains("Err(") => "an operation fails by itself",
            _ => "an operation succeeds by itself",
        });
    }

    // One after the other.
    let mut order: Vec<Run> = Vec::new();
    for _ in 0..ops.len() + src.small(6) {
        let mut r = Run::alone(src.below(ops.len()));
        if points[r.op] > 0 && src.pct(15) {
            r.panic_at = Some(src.below(points[r.op]));
        }
        order.push(r);
    }
    let runs = order.clone();
    let r = collect(
        start(&ops, move || {
            for (i, r) in runs.iter().enumerate() {
                exec(r, &format!("number {}", i));
            }
        }),
        &|| format!("{:?}{}", order, describe(&ops)),
    )?;
    judge(&r, &alone, &ops, &format!("in the sequence {:?}", order))?;

    // Within one another.
    let mut left = 12;
    let run = gen_run(src, &points, 0, &mut left);
    let again = run.clone();
    let r = collect(start(&ops, move || exec(&again, "outermost")), &|| {
        format!("{:?}{}", run, describe(&ops))
    })?;
    case.nontrivial |= r.interrupted;
    case.label(if r.interrupted {
        "nested"
    } else {
        "nothing to interrupt"
    });
    judge(&r, &alone, &ops, &format!("nested as {:?}", run))?;

    // Taking turns.
    let threads = 2 + src.small(3);
    let mut runs: Vec<Vec<Run>> = Vec::new();
    for _ in 0..threads {
        let mut v = Vec::new();
        for _ in 0..1 + src.small(2) {
            // Mostly by themselves.
            let mut left = if src.pct(80) { 1 } else { 4 };
            v.push(gen_run(src, &points, 0, &mut left));
        }
        runs.push(v);
    }
    // Stretches of random length.
    let mut schedule = Vec::new();
    for _ in 0..src.below(30) {
        let who = src.below(threads);
        for _ in 0..1 + src.small(6) {
            schedule.push(who);
        }
    }
    let turns = Arc::new(Turns {
        state: Mutex::new(State {
            turn: 0,
            alive: vec![true; threads],
            schedule,
            next: 0,
            switches: 0,
        }),
        changed: Condvar::new(),
    });
    let what = format!("on threads as {:?}", runs);
    let reports: Vec<Receiver<Report>> = runs
        .into_iter()
        .enumerate()
        .map(|(me, runs)| {
            let turns = turns.clone();
            start(&ops, move || {
                turns.wait(me);
                TURN.with(|t| *t.borrow_mut() = Some((turns.clone(), me)));
                for r in &runs {
                    exec(r, &format!("on thread {}", me));
                }
                TURN.with(|t| *t.borrow_mut() = None);
                turns.finish(me);
            })
        })
        .collect();
    for r in reports {
        let r = collect(r, &|| format!("{}{}", what, describe(&ops)))?;
        judge(&r, &alone, &ops, &what)?;
    }
    let switches = turns.state.lock().unwrap().switches;
    case.nontrivial |= switches > 0;
    case.also(switches > 0, (&what, "threads"));
    if switches > 0 {
        case.label("threads which took turns");
    }
    Ok(())
}

const FIXED: &[fn(&Ctx, &mut Case) -> R] = &[long];

/// Thousands of operations one after the other on one thread, which then don't yield anything else
/// than they did at first.
fn long(ctx: &Ctx, case: &mut Case) -> R {
    let mut src = Src::fresh(ctx.seed ^ 0x21);
    let n = if ctx.thorough { 2000 } else { 300 };
    let ops: Vec<Op> = (0..n).filter_map(|_| gen_op(&mut src, ctx)).collect();
    let ops = Arc::new(ops);
    let (alone, _) = baseline(&ops)?;
    let n = ops.len();
    let r = collect(
        start(&ops, move || {
            for round in 0..20 {
                for i in 0..n {
                    exec(&Run::alone((i * (2 * round + 1)) % n), "among many");
                }
            }
        }),
        &|| "many operations".to_owned(),
    )?;
    case.key("long");
    case.label("thousands of operations");
    case.nontrivial = true;
    judge(&r, &alone, &[], "in a long sequence")
}
