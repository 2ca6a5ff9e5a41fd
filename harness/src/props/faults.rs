//! Serialization which can't succeed.

use super::builder::{self, Body, Kid, Misuse, Node, Swallow};
use crate::engine::{Case, Ctx, Prop, R};
use crate::io::{Fault, Sink};
use crate::scen;
use crate::schema::Name;
use crate::source::Src;
use crate::xmltree;
use crate::zoo::{self, SerOpts};
use crate::{ensure, fail};
use std::io::ErrorKind;

pub const PROPS: &[Prop] = &[Prop {
    id: "C09",
    level: "fault_enumeration",
    rule: "A case is a random tree written through the builder interface, whose elements may swallow errors from their children and go on or stop, or a random value of a derived type. Each is written once without a fault, and then with each kind of fault (every write from here on fails, only this one fails, no room left) at each single write, or up to 60 of them spread over a longer document; misused at a random element (begun but not started, started but not finished, or giving up in its attributes or among its children); and to sinks which are interrupted or accept little at a time. Evaluations count the single runs. Non-trivial: the run has a fault or a misuse.",
    assumptions: &[
        "a builder or writer which is leaked (mem::forget) can't be noticed",
        "whether buffering sinks get flushed isn't specified",
    ],
    quick: 180_000,
    thorough: 1_500_000,
    run: c09,
    fixed: |_| 6,
    run_fixed: |_, i, k| c09_fixed(i, k),
}];

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
];

/// Writes to a sink and returns whether that succeeded, the sink, and where the first misuse was.
type Run<'a> = &'a dyn Fn(Sink) -> (Result<(), String>, Sink, Option<usize>);

/// Tries every fault, given what a run without a fault writes.
fn sinks(src: &mut Src, case: &mut Case, want: &[u8], writes: usize, run: Run) -> R {
    let key = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        want.hash(&mut h);
        h.finish()
    };
    // Not faults.
    for _ in 0..2 {
        let mut s = Sink::new();
        s.interrupt = [0, 2, 3, 5][src.below(4)];
        s.most = [0, 1, 2, 3, 7, 30][src.below(6)];
        let what = format!("interrupt {} most {}", s.interrupt, s.most);
        let (r, s, _) = run(s);
        if let Err(e) = r {
            fail!("failed without a fault ({}): {}", what, e);
        }
        ensure!(
            s.data == want,
            "wrote {:?}\nrather than {:?}\nto a sink with {}",
            String::from_utf8_lossy(&s.data),
            String::from_utf8_lossy(want),
            what
        );
        case.also(false, ());
    }
    let step = (writes / 60).max(1);
    let first = if step > 1 { src.below(step) } else { 0 };
    let kind = *src.pick(KINDS);
    let most = if src.pct(20) { 1 + src.below(9) } else { 0 };
    let interrupt = if src.pct(20) { 2 + src.below(4) } else { 0 };
    for at in (first..writes).step_by(step) {
        for fault in [Fault::Broken(kind), Fault::Once(kind), Fault::Full] {
            let mut s = Sink::new();
            s.most = most;
            s.interrupt = interrupt;
            s.fail = Some((at, fault));
            let (r, s, _) = run(s);
            case.also(true, (key, at, fault, most));
            ensure!(
                s.failed,
                "write {} of at least {} never happened",
                at,
                writes
            );
            let show = || {
                format!(
                    "{:?} at write {} of {}, after {:?}",
                    fault,
                    at,
                    writes,
                    xmltree::clip(&String::from_utf8_lossy(&s.data))
                )
            };
            ensure!(r.is_err(), "reported success despite {}", show());
            ensure!(
                want.starts_with(&s.data),
                "{}, which isn't how this starts: {:?}",
                show(),
                xmltree::clip(&String::from_utf8_lossy(want))
            );
            ensure!(!s.after, "went on writing after {}", show());
        }
    }
    Ok(())
}

fn c09(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    match src.weighted(&[40, 35, 25]) {
        0 => {
            let n = builder::gen_tree(src, 30);
            case.label("tree, sink faults");
            case.sample(|| format!("{:?}", n));
            tree_sinks(src, case, &n)
        }
        1 => {
            let mut n = builder::gen_tree(src, 40);
            let twice = src.pct(20);
            case.label(if twice { "misused twice" } else { "misused" });
            misuse(src, case, &mut n, twice)
        }
        _ => derived(ctx, src, case),
    }
}

fn tree_sinks(src: &mut Src, case: &mut Case, n: &Node) -> R {
    let indent = src.pct(20);
    let decl = !src.pct(20);
    let run = |s: Sink| {
        let (r, s, m) = builder::write_to(n, s, indent, decl);
        (r.map_err(|e| e.to_string()), s, m)
    };
    let (r, s, _) = run(Sink::new());
    if let Err(e) = r {
        fail!("failed without a fault: {}\n{:#?}", e, n);
    }
    case.nontrivial = true;
    case.key(format!("{:?}", n));
    sinks(src, case, &s.data, s.writes, &run).map_err(|f| crate::engine::Fail {
        msg: format!("{}\n{:#?}", f.msg, n),
    })
}

/// Makes one random element misbehave.
fn plant(src: &mut Src, n: &mut Node) {
    let total = n.nodes().len();
    let mut i = src.below(total);
    let kind = src.below(4);
    let at = src.below(64);
    let mut first = true;
    n.find_mut(false, &mut |n, direct| {
        let root = std::mem::replace(&mut first, false);
        if i > 0 {
            i -= 1;
            return false;
        }
        let _ = root;
        n.misuse = Some(match kind {
            0 if direct => Misuse::Unstarted,
            1 if direct => Misuse::Unfinished(at % (n.kids.len() + 1)),
            0 | 2 => Misuse::FailAttr(at % (n.acts.len() + 1)),
            _ => Misuse::FailChild(at % (n.kids.len() + 1)),
        });
        true
    });
}

fn misuse(src: &mut Src, case: &mut Case, n: &mut Node, twice: bool) -> R {
    let indent = src.pct(20);
    let (r, good, _) = builder::write_to(n, Sink::new(), indent, true);
    if let Err(e) = r {
        fail!("failed without a fault: {}\n{:#?}", e, n);
    }
    plant(src, n);
    if twice {
        plant(src, n);
    }
    let mut s = Sink::new();
    s.most = [0, 1, 5][src.small(3)];
    let (r, s, at) = builder::write_to(n, s, indent, true);
    case.nontrivial = true;
    case.key(format!("{:?}", n));
    case.sample(|| format!("{:?}", n));
    let show = |d: &[u8]| xmltree::clip(&String::from_utf8_lossy(d));
    let at = match at {
        Some(at) => at,
        None => fail!("the misused element wasn't reached in {:#?}", n),
    };
    ensure!(
        r.is_err(),
        "reported success despite the misuse of an element; wrote {:?}\nof {:#?}",
        show(&s.data),
        n
    );
    ensure!(
        s.data.len() == at,
        "went on writing after the misuse: {:?}, then {:?}\nof {:#?}",
        show(&s.data[..at]),
        show(&s.data[at..]),
        n
    );
    ensure!(
        good.data.starts_with(&s.data),
        "wrote {:?} before the misuse, which isn't how this starts: {:?}\nof {:#?}",
        show(&s.data),
        show(&good.data),
        n
    );
    match static_xml::serialize(&*n).to_string() {
        Err(_) => Ok(()),
        Ok(s) => fail!(
            "to_string reported success despite the misuse of an element: {:?}\nof {:#?}",
            s,
            n
        ),
    }
}

fn derived(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let mut val = match zoo.gen_val(src, id, 0, false) {
        Some(v) => v,
        None => return Ok(()),
    };
    let entry = zoo::entry(id);
    let name = Name::new("", "root");
    let name = if zoo.element(id).is_none() || src.pct(20) {
        Some(&name)
    } else {
        None
    };
    let opts = SerOpts {
        indent: src.pct(20),
        no_decl: src.pct(20),
        name,
    };
    case.key((id, format!("{:?}", val)));
    case.nontrivial = true;
    let describe =
        |v: &crate::model::Val| format!("{}\n{:?}", super::roundtrip::describe(zoo, id), v);
    let run = |v: &crate::model::Val, mut s: Sink| {
        let r = (entry.ser)(v, opts, &mut s);
        (r, s, None)
    };
    let (good, s, _) = run(&val, Sink::new());
    if good.is_err() || src.pct(25) {
        // It has to be refused by itself.
        if good.is_ok() && !zoo.spoil(src, id, &mut val) {
            return Ok(());
        }
        case.label("value that can't be written");
        case.sample(|| describe(&val));
        let (r, t, _) = run(&val, Sink::new());
        ensure!(
            r.is_err(),
            "reported success for a value which can't be written: {:?}\nof {}",
            String::from_utf8_lossy(&t.data),
            describe(&val)
        );
        ensure!(
            good.is_err() || s.data.starts_with(&t.data),
            "wrote {:?}\nwhich isn't how this starts: {:?}\nof {}",
            String::from_utf8_lossy(&t.data),
            String::from_utf8_lossy(&s.data),
            describe(&val)
        );
        ensure!(
            (entry.ser_string)(&val, opts).is_err(),
            "to_string reported success for a value which can't be written: {}",
            describe(&val)
        );
        return Ok(());
    }
    case.label("derived, sink faults");
    case.sample(|| describe(&val));
    sinks(src, case, &s.data, s.writes, &|s| run(&val, s)).map_err(|f| crate::engine::Fail {
        msg: format!("{}\nof {}", f.msg, describe(&val)),
    })
}

fn leaf(misuse: Option<Misuse>) -> Node {
    Node {
        name: Name::new("", "leaf"),
        acts: vec![],
        kids: vec![],
        misuse,
    }
}

fn c09_fixed(i: usize, case: &mut Case) -> R {
    case.key(i);
    case.nontrivial = true;
    let text = || Kid {
        body: Body::Text("t".to_owned()),
        swallow: Swallow::GoOn,
    };
    let bad = [
        Misuse::Unstarted,
        Misuse::Unfinished(0),
        Misuse::FailAttr(0),
        Misuse::FailChild(0),
    ];
    if let Some(m) = bad.get(i) {
        // As the first, middle, last, or only child, at several depths.
        for depth in 0..4 {
            for (before, after) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                for swallow in [Swallow::GoOn, Swallow::Stop, Swallow::No] {
                    let mut kids: Vec<Kid> = (0..before).map(|_| text()).collect();
                    kids.push(Kid {
                        body: Body::Direct(leaf(Some(*m))),
                        swallow,
                    });
                    kids.extend((0..after).map(|_| text()));
                    let mut n = Node { kids, ..leaf(None) };
                    for _ in 0..depth {
                        n = Node {
                            kids: vec![Kid {
                                body: Body::Direct(n),
                                swallow,
                            }],
                            ..leaf(None)
                        };
                    }
                    let (r, s, at) = builder::write_to(&n, Sink::new(), false, true);
                    ensure!(
                        r.is_err() && at == Some(s.data.len()),
                        "{:?} with {:?}: {:?} after {:?}, misused at {:?}",
                        m,
                        swallow,
                        r,
                        String::from_utf8_lossy(&s.data),
                        at
                    );
                    case.also(true, (depth, before, after, swallow as u8));
                }
            }
        }
        return Ok(());
    }
    // Every write of a document with every kind of event, where all errors are swallowed.
    let n = Node {
        name: Name::new("urn:a", "e"),
        acts: vec![
            builder::Act::Ns("p", "urn:a"),
            builder::Act::Attr("urn:a", "x", "1".to_owned()),
        ],
        kids: vec![
            text(),
            Kid {
                body: Body::Direct(leaf(None)),
                swallow: Swallow::GoOn,
            },
            Kid {
                body: Body::Str(Name::new("urn:a", "f"), "s".to_owned()),
                swallow: Swallow::GoOn,
            },
            Kid {
                body: Body::Many(Name::new("", "leaf"), vec![leaf(None), leaf(None)]),
                swallow: if i == 4 { Swallow::GoOn } else { Swallow::Stop },
            },
            text(),
        ],
        misuse: None,
    };
    tree_sinks(&mut Src::replay(vec![0; 64]), case, &n)
}
