//! How long reading and writing take.

use crate::engine::{Case, Ctx, Prop, R};
use crate::props::builder::{self, intern, Act, Body, Kid};
use crate::props::space;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Node, Style};
use crate::zoo::{self, SerOpts};
use crate::{ensure, scen};

pub const PROPS: &[Prop] = &[Prop {
    id: "C22",
    level: "exploration",
    rule: "A case is something to read, convert or write a part of which is repeated: known or unknown elements, comments, instructions or pieces of text at a random place of a document for a derived type; a few characters within an attribute or the text of such a document; those of a text to be converted or normalized; an element which is written, derived or through the builder; and characters in text or attributes which are written. It's carried out with N and 32N repetitions, where N makes for some tens of kilobytes, and the processor time of the thread is taken. The longer one mustn't take more than 128 times as long, plus 20 ms. A case which does is measured eight more times, and the shortest times count. Evaluations count cases. Non-trivial: it succeeded.",
    assumptions: &[
        "the shortest of nine measurements is within a factor of two of what the work takes",
        "reading takes as long per byte as xml-rs does; many attributes or mappings on one element, or deep nesting, aren't measured as xml-rs itself takes longer then",
    ],
    quick: 4000,
    thorough: 60_000,
    run: c22,
    fixed: crate::engine::no_fixed,
    run_fixed: crate::engine::no_run_fixed,
}];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

const CLOCK_THREAD_CPUTIME_ID: i32 = 3;

/// The processor time this thread has used up, in seconds.
fn now() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    assert_eq!(unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) }, 0);
    t.sec as f64 + t.nsec as f64 * 1e-9
}

fn time(f: &mut dyn FnMut() -> bool) -> (bool, f64) {
    let start = now();
    let ok = f();
    (ok, now() - start)
}

const TIMES: usize = 32;

fn excessive(short: f64, long: f64) -> bool {
    long > 4.0 * TIMES as f64 * short + 0.02
}

/// `f` does it with N repetitions if false, and with 32N if true.
fn judge(f: &mut dyn FnMut(bool) -> bool, case: &mut Case, what: &dyn Fn() -> String) -> R {
    let (ok, mut short) = time(&mut || f(false));
    short = short.min(time(&mut || f(false)).1);
    let (long_ok, mut long) = time(&mut || f(true));
    ensure!(
        ok == long_ok,
        "whether it succeeds depends on the number of repetitions: {}",
        what()
    );
    for _ in 0..8 {
        if !excessive(short, long) {
            break;
        }
        short = short.min(time(&mut || f(false)).1);
        long = long.min(time(&mut || f(true)).1);
    }
    ensure!(
        !excessive(short, long),
        "{:.1} ms, but {:.1} ms for {} times as much: {}",
        short * 1e3,
        long * 1e3,
        TIMES,
        what()
    );
    case.nontrivial = ok;
    if !ok {
        case.label("failed");
    }
    Ok(())
}

/// About so many bytes.
const SIZE: usize = 20_000;

fn times(unit: usize) -> usize {
    (SIZE / unit.max(1)).max(8)
}

fn c22(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    match src.weighted(&[40, 25, 10, 15, 10]) {
        0 => content(ctx, src, case),
        1 => characters(ctx, src, case),
        2 => conversion(ctx, src, case),
        3 => values(ctx, src, case),
        _ => builder(src, case),
    }
}

fn content(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let (e, _) = match scen::document(src, zoo, id, 0) {
        Some(d) => d,
        None => return Ok(()),
    };
    let known = match src.pct(60) {
        true => space::kept(src, zoo, id, &e),
        false => None,
    };
    let r = match known.or_else(|| space::ignored(src, zoo, id, e)) {
        Some(r) => r,
        None => return Ok(()),
    };
    let n = times(r.unit.len());
    let document = |n: usize| format!("{}{}{}", r.before, r.unit.repeat(n), r.after);
    let documents = [document(n), document(TIMES * n)];
    case.key((id, &documents[0]));
    let show = || {
        format!(
            "{}[{}]{} as {}\n{}",
            r.before,
            r.unit,
            r.after,
            zoo.tys[id].0,
            super::roundtrip::describe(zoo, id)
        )
    };
    case.sample(show);
    case.label(if r.kept { "kept" } else { "ignored" });
    let entry = zoo::entry(id);
    judge(
        &mut |long| (entry.de_drop)(&mut documents[long as usize].as_bytes()).is_ok(),
        case,
        &show,
    )
}

const CHARACTERS: &[&str] = &[
    " ", "a", "\n", " a", "a  ", "\t\n", "é", "&", "<a ", "]]>", "'", "\"", "0", "\r\n", "x y\t",
];

/// Some long text.
fn characters(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let unit = src.pick(CHARACTERS);
    let (e, _) = match scen::document(src, zoo, id, 0) {
        Some(d) => d,
        None => return Ok(()),
    };
    let mut at = (0, None, false);
    for tries in 0.. {
        let n = src.below(e.size());
        let mut e2 = e.clone();
        let attrs = e2.nth_mut(n).attrs.len();
        let attr = match attrs > 0 && src.pct(50) {
            true => Some(src.below(attrs)),
            false => None,
        };
        at = (n, attr, src.pct(50));
        extend(&mut e2, at, unit, 3);
        if tries == 4 || zoo.interp(id, &e2, &mut Default::default()).is_ok() {
            break;
        }
    }
    let n = times(unit.len());
    let document = |n: usize| {
        let mut e = e.clone();
        extend(&mut e, at, unit, n);
        // References take longer, so they have to be in both or in neither.
        xmltree::render(&mut Src::replay(vec![]), &e, Style::PLAIN).text
    };
    let documents = [document(n), document(TIMES * n)];
    case.key((id, &documents[0]));
    let show = || {
        format!(
            "{:?} repeated in {} ({:?}) as {}\n{}",
            unit,
            e.show(),
            at,
            zoo.tys[id].0,
            super::roundtrip::describe(zoo, id)
        )
    };
    case.sample(show);
    case.label(if at.1.is_some() { "attribute" } else { "text" });
    let entry = zoo::entry(id);
    judge(
        &mut |long| (entry.de_drop)(&mut documents[long as usize].as_bytes()).is_ok(),
        case,
        &show,
    )
}

/// Makes an attribute or text of an element longer, at its end or start.
fn extend(e: &mut xmltree::Elem, at: (usize, Option<usize>, bool), unit: &str, n: usize) {
    let e = e.nth_mut(at.0);
    let more = unit.repeat(n);
    let join = |old: &str| match at.2 {
        true => format!("{}{}", more, old),
        false => format!("{}{}", old, more),
    };
    if let Some(a) = at.1 {
        e.attrs[a].1 = join(&e.attrs[a].1);
        return;
    }
    for k in &mut e.kids {
        if let Node::Text(t) = k {
            *t = join(t);
            return;
        }
    }
    e.push_text(&more);
}

fn conversion(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let unit = src.pick(CHARACTERS);
    let n = times(unit.len());
    let text = |n: usize| unit.repeat(n);
    let texts = [text(n), text(TIMES * n)];
    if src.pct(40) {
        use static_xml::de::WhiteSpace::*;
        let mode = src.below(3);
        let show = || format!("{:?} normalized as {}", unit, mode);
        case.key((unit, mode));
        case.sample(show);
        case.label("normalize");
        return judge(
            &mut |long| {
                let mode = [Preserve, Replace, Collapse][mode];
                let s = static_xml::de::normalize(texts[long as usize].clone(), mode);
                s.len() <= texts[long as usize].len()
            },
            case,
            &show,
        );
    }
    let id = scen::pick_type(src, zoo, &|id| zoo.text(id).is_some());
    let parse = match zoo::entry(id).parse {
        Some(p) => p,
        None => return Ok(()),
    };
    let show = || {
        format!(
            "{:?} repeated as {}\n{}",
            unit,
            zoo.tys[id].0,
            super::roundtrip::describe(zoo, id)
        )
    };
    case.key((unit, id));
    case.sample(show);
    case.label("parse");
    judge(
        &mut |long| parse(&texts[long as usize]).is_ok(),
        case,
        &show,
    )
}

fn values(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let v = match zoo.gen_val(src, id, 0, true) {
        Some(v) => v,
        None => return Ok(()),
    };
    let name = Name::new("", "r");
    let opts = SerOpts {
        indent: src.pct(30),
        no_decl: src.pct(30),
        name: None,
    };
    let e = zoo.infoset_lenient(id, &v, &name);
    case.key((format!("{:?}", v), id));
    let show = || format!("{}\n{}", e.show(), super::roundtrip::describe(zoo, id));
    case.sample(show);
    case.label("derived values");
    let mut r = Ok(());
    (zoo::entry(id).ser_many)(&v, &name, &mut |write| {
        let mut one = Vec::new();
        write(1, opts, &mut one);
        let n = times(one.len());
        r = judge(
            &mut |long| {
                let mut out = Vec::new();
                write(if long { TIMES * n } else { n }, opts, &mut out)
            },
            case,
            &show,
        );
    });
    r
}

fn builder(src: &mut Src, case: &mut Case) -> R {
    let mut tree = builder::gen_tree(src, 0);
    // What's to be repeated where.
    let unit = src.pick(CHARACTERS);
    let what = src.below(6);
    let kid = match tree.kids.is_empty() {
        false => src.below(tree.kids.len()),
        true => {
            tree.kids.push(Kid {
                body: Body::Text("t".to_owned()),
                swallow: builder::Swallow::No,
            });
            0
        }
    };
    let repeated = |n: usize| {
        let mut t = tree.clone();
        match what {
            0 => {
                let k = t.kids[kid].clone();
                t.kids.splice(kid..kid, std::iter::repeat(k).take(n));
            }
            1 => t.kids.insert(
                kid,
                Kid {
                    body: Body::Text(unit.repeat(n)),
                    swallow: builder::Swallow::No,
                },
            ),
            2 => t.acts.push(Act::Attr("", "zzz", unit.repeat(n))),
            // Leaking the names, which are the same every time.
            4 => t
                .acts
                .extend((0..n).map(|i| Act::Attr("", intern(&format!("zzz{}", i)), String::new()))),
            5 => t.acts.extend((0..n).map(|i| {
                let p = intern(&format!("zzz{}", i));
                Act::Ns(p, p)
            })),
            _ => {
                let text = Kid {
                    body: Body::Text(unit.to_string()),
                    swallow: builder::Swallow::No,
                };
                t.kids.splice(kid..kid, std::iter::repeat(text).take(n));
            }
        }
        t
    };
    let indent = src.pct(30);
    let write = |t: &builder::Node| static_xml::serialize(t).perform_indent(indent).to_string();
    let size = match what {
        0 => match &write(&repeated(2)) {
            Ok(s) => s.len() - write(&tree).map_or(0, |s| s.len()).min(s.len() - 1),
            Err(_) => 10,
        },
        4 | 5 => 15,
        _ => unit.len(),
    };
    let n = times(size);
    let trees = [repeated(n), repeated(TIMES * n)];
    let show = || {
        format!(
            "{} in {:?}",
            ["kid", "text", "attribute", "run", "attributes", "mappings"][what],
            tree
        )
    };
    case.key((what, unit, format!("{:?}", tree)));
    case.sample(show);
    case.label("builder");
    judge(
        &mut |long| write(&trees[long as usize]).is_ok(),
        case,
        &show,
    )
}
