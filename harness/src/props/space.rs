//! What reading and writing allocate.

use crate::alloc::{count, Count};
use crate::engine::{Case, Ctx, Prop, R};
use crate::io::{Fault, Source};
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Elem, Node, Style};
use crate::zoo::{self, SerOpts};
use crate::{ensure, scen};
use std::io::{self, ErrorKind, Write};

pub const PROPS: &[Prop] = &[Prop {
    id: "C20",
    level: "exploration",
    rule: "A case is either a document for a derived type (valid, or mutated once) in which some content stands at a random place over and over, or a random value which is written over and over within an element. The repeated content is either of no account (unknown elements with all sorts of things within, comments, processing instructions, all in random spellings), or kept (an element or a piece of text which by the model may be repeated). It's read or written with N, 2N and 4N repetitions while all allocations of the thread are counted, and again with the source or sink failing at a random point. The peak must not depend on the repetitions (or be at most proportional to them for what's kept), what's allocated in total must be at most proportional to them, and nothing may remain allocated. Evaluations count cases. Non-trivial: the reading succeeded with at least one repeated element, or the writing with elements within the repeated one.",
    assumptions: &[
        "a peak which differs by less than 1 kB between N and 4N repetitions (about 100 and 400 events, at the least) doesn't depend on them",
        "memory which the library frees is counted as freed, whatever the allocator does with it",
    ],
    quick: 60_000,
    thorough: 700_000,
    run: |c, s, k| {
        if s.pct(60) {
            reading(c, s, k)
        } else {
            writing(c, s, k)
        }
    },
    fixed: crate::engine::no_fixed,
    run_fixed: crate::engine::no_run_fixed,
}];

const SLACK: i64 = 1000;

/// Whether the second difference is twice the first, or less.
fn linear(a: i64, b: i64, c: i64) -> bool {
    let (first, second) = (b - a, c - b);
    second <= 2 * first + first / 4 + 4000
}

/// Compares what N, 2N and 4N repetitions allocate.
fn judge(n: usize, kept: bool, counts: &[Count; 3], what: impl Fn() -> String) -> R {
    for c in counts {
        ensure!(
            c.live == 0,
            "{} bytes remain allocated: {:?} for {}",
            c.live,
            counts,
            what()
        );
    }
    let [a, b, c] = counts;
    ensure!(
        kept || c.peak - a.peak < SLACK && b.peak - a.peak < SLACK,
        "the peak depends on the number of repetitions: {} bytes for {}, {} for {}, {} for {}, on {}",
        a.peak,
        n,
        b.peak,
        2 * n,
        c.peak,
        4 * n,
        what()
    );
    ensure!(
        c.peak <= 5 * a.peak + 2000,
        "the peak isn't proportional to the number of repetitions: {} bytes for {}, {} for {}, {} for {}, on {}",
        a.peak,
        n,
        b.peak,
        2 * n,
        c.peak,
        4 * n,
        what()
    );
    ensure!(
        if kept {
            c.total <= 5 * a.total + 2000
        } else {
            linear(a.total, b.total, c.total)
        },
        "what's allocated isn't proportional to the number of repetitions: {} bytes for {}, {} for {}, {} for {}, on {}",
        a.total,
        n,
        b.total,
        2 * n,
        c.total,
        4 * n,
        what()
    );
    Ok(())
}

fn uncounted(zoo: &Zoo, id: TyId) -> bool {
    // That type keeps a record of its own.
    !zoo.any(id, &|t| matches!(t, Ty::Text(TextTy::Prim(Prim::Canary))))
}

const PLACEHOLDER: &str = "zzz-placeholder";

/// A document with a part that's to be repeated.
pub struct Repeated {
    pub before: String,
    pub unit: String,
    pub after: String,
    /// Whether the type is to keep what the repeated part says.
    pub kept: bool,
    /// In the repeated part.
    pub elements: usize,
}

/// The parts of a document before and after the placeholder.
fn around(text: &str) -> Option<(String, String)> {
    let (a, b) = text.split_once(&format!("<{}/>", PLACEHOLDER))?;
    Some((a.to_owned(), b.to_owned()))
}

fn placeholder() -> Node {
    Node::Elem(Elem::new(Name::new("", PLACEHOLDER)))
}

/// Repeats some of what the type knows.
pub fn kept(src: &mut Src, zoo: &Zoo, id: TyId, e: &Elem) -> Option<Repeated> {
    for _ in 0..5 {
        let mut e2 = e.clone();
        let n = src.below(e2.size());
        let at = e2.nth_mut(n);
        let (unit, i, elements) = if src.pct(25) {
            // Text in pieces.
            let text = "wordy text ".repeat(1 + src.below(12));
            at.kids.push(Node::Text(text.clone()));
            let between = src.pick(&["<!---->", "<?p?>", "<![CDATA[]]>", "<!--c-->"]);
            (format!("{}{}", text, between), at.kids.len() - 1, 0)
        } else {
            let kids: Vec<usize> = (0..at.kids.len())
                .filter(|i| matches!(at.kids[*i], Node::Elem(_)))
                .collect();
            if kids.is_empty() {
                continue;
            }
            let i = *src.pick(&kids);
            let kid = at.kids[i].clone();
            at.kids.insert(i, kid.clone());
            match kid {
                Node::Elem(kid) => (xmltree::render(src, &kid, Style::PLAIN).text, i, kid.size()),
                Node::Text(_) => continue,
            }
        };
        if zoo.interp(id, &e2, &mut Default::default()).is_err() {
            continue;
        }
        let mut e3 = e2.clone();
        e3.nth_mut(n).kids[i] = placeholder();
        let (before, after) = around(&xmltree::render(src, &e3, Style::PLAIN).text)?;
        // The surroundings mustn't give the repeated part another meaning.
        if elements > 0 && xmltree::parse(&format!("{}{}{}", before, unit, after)) != Ok(e2) {
            continue;
        }
        return Some(Repeated {
            before,
            unit,
            after,
            kept: true,
            elements,
        });
    }
    None
}

/// Repeats something the type doesn't know.
pub fn ignored(src: &mut Src, zoo: &Zoo, id: TyId, mut e: Elem) -> Option<Repeated> {
    let voc = scen::vocab(zoo, id);
    let mut unit = String::new();
    let mut elements = 0;
    for _ in 0..1 + src.small(3) {
        match src.weighted(&[80, 10, 10]) {
            0 => {
                let mut e = scen::junk_elem(src, &voc, 0);
                e.name = Name::new(src.pick(&["urn:zzz", "urn:zzz2"]), "zzz");
                scen::tidy(&mut e);
                let style = if src.pct(60) {
                    Style {
                        outside: false,
                        ..Style::VARIED
                    }
                } else {
                    Style::PLAIN
                };
                unit.push_str(&xmltree::render(src, &e, style).text);
                elements += e.size();
            }
            1 => unit.push_str(&format!("<!--{}-->", "c".repeat(src.small(50)))),
            _ => unit.push_str(&format!("<?p {}?>", "q".repeat(src.small(50)))),
        }
    }
    let outside = elements == 0 && src.pct(70);
    let bytes = if outside {
        let text = xmltree::render(src, &e, Style::PLAIN).text;
        if src.pct(50) {
            (String::new(), text)
        } else {
            (text, String::new())
        }
    } else {
        // Preferably where it's of no account.
        for tries in 0.. {
            let mut e2 = e.clone();
            let at = if src.pct(40) { 0 } else { src.below(e2.size()) };
            let at = e2.nth_mut(at);
            let i = src.below(at.kids.len() + 1);
            at.kids.insert(i, placeholder());
            if tries == 4 || zoo.interp(id, &e2, &mut Default::default()).is_ok() {
                e = e2;
                break;
            }
        }
        let text = xmltree::render(src, &e, Style::PLAIN).text;
        around(&text)?
    };
    Some(Repeated {
        before: bytes.0,
        unit,
        after: bytes.1,
        kept: false,
        elements,
    })
}

fn reading(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|id| uncounted(zoo, id));
    let mutations = src.weighted(&[75, 25]);
    let (e, _) = match scen::document(src, zoo, id, mutations) {
        Some(d) => d,
        None => return Ok(()),
    };
    let known = if src.pct(30) {
        kept(src, zoo, id, &e)
    } else {
        None
    };
    let (before, unit, after, kept, elements) = match known.or_else(|| ignored(src, zoo, id, e)) {
        Some(r) => (r.before, r.unit, r.after, r.kept, r.elements),
        None => return Ok(()),
    };
    // At least some kilobytes.
    let n = (3000 / unit.len().max(1)).clamp(20, 200);
    let documents: Vec<String> = [n, 2 * n, 4 * n]
        .iter()
        .map(|n| format!("{}{}{}", before, unit.repeat(*n), after))
        .collect();
    let entry = zoo::entry(id);
    case.key((&before, &after, &unit, id));
    case.sample(|| format!("{} \u{2026}{} times {}\u{2026} {}", before, n, unit, after));
    let what = || {
        format!(
            "{}[{}]{} as {}\n{}",
            before,
            unit,
            after,
            zoo.tys[id].0,
            super::roundtrip::describe(zoo, id)
        )
    };
    // Whatever's set up only once.
    let _ = (entry.de_drop)(&mut before.as_bytes());
    let mut read = |i: usize| count(|| (entry.de_drop)(&mut documents[i].as_bytes()).is_ok());
    let runs = [read(0), read(1), read(2)];
    ensure!(
        runs[0].0 == runs[1].0 && runs[0].0 == runs[2].0,
        "whether it can be read depends on the number of repetitions: {:?} for {}",
        runs,
        what()
    );
    case.label(match (runs[0].0, kept) {
        (true, true) => "read and kept",
        (true, false) => "read",
        (false, _) => "not read",
    });
    case.nontrivial = runs[0].0 && elements > 0;
    judge(n, kept, &[runs[0].1, runs[1].1, runs[2].1], what)?;

    let at = src.below(documents[0].len());
    let cut = src.pct(50);
    let (_, c) = count(|| {
        let text = documents[0].as_bytes();
        if cut {
            return (entry.de_drop)(&mut &text[..at]).is_ok();
        }
        let mut s = Source::new(text);
        s.fail = Some((at, ErrorKind::Other));
        (entry.de_drop)(&mut s).is_ok()
    });
    ensure!(
        c.live == 0,
        "{} bytes remain allocated when the source {} at byte {} of {} repetitions in {}",
        c.live,
        if cut { "ends" } else { "fails" },
        at,
        n,
        what()
    );
    Ok(())
}

/// Accepts everything up to a point.
struct Counted {
    written: usize,
    fail: Option<(usize, Fault)>,
}

impl Write for Counted {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some((at, fault)) = self.fail {
            if self.written >= at {
                match fault {
                    Fault::Full => return Ok(0),
                    Fault::Broken(k) => return Err(k.into()),
                    Fault::Once(k) => {
                        self.fail = None;
                        return Err(k.into());
                    }
                }
            }
        }
        self.written += buf.len();
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn writing(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|id| uncounted(zoo, id));
    let v = match zoo.gen_val(src, id, 0, true) {
        Some(v) => v,
        None => return Ok(()),
    };
    // Which every type can be written with.
    let name = Name::new("", src.pick(&["r", "repeated"]));
    let opts = SerOpts {
        indent: src.pct(30),
        no_decl: src.pct(30),
        name: None,
    };
    let e = zoo.infoset_lenient(id, &v, &name);
    case.key((format!("{:?}", v), id));
    case.sample(|| e.show());
    let what = || {
        format!(
            "{}\n{:?}\n{}",
            e.show(),
            opts,
            super::roundtrip::describe(zoo, id)
        )
    };
    let at = src.below(4000);
    let fault = match src.below(3) {
        0 => Fault::Full,
        1 => Fault::Broken(ErrorKind::BrokenPipe),
        _ => Fault::Once(ErrorKind::Other),
    };
    let mut runs = Vec::new();
    let mut faulty = None;
    let mut n = 0;
    (zoo::entry(id).ser_many)(&v, &name, &mut |write| {
        let mut run = |n: usize, fail: Option<(usize, Fault)>| {
            count(|| {
                let mut sink = Counted { written: 0, fail };
                (write(n, opts, &mut sink), sink.written)
            })
        };
        let size = run(1, None).0 .1;
        n = (3000 / size.max(1)).clamp(20, 200);
        runs.extend([run(n, None), run(2 * n, None), run(4 * n, None)]);
        faulty = Some(run(n, Some((at, fault))));
    });
    let counts = [runs[0].1, runs[1].1, runs[2].1];
    ensure!(
        runs[0].0 .0 == runs[1].0 .0 && runs[0].0 .0 == runs[2].0 .0,
        "whether it can be written depends on the number of repetitions: {:?} for {}",
        runs,
        what()
    );
    case.label(if runs[0].0 .0 {
        "written"
    } else {
        "not written"
    });
    case.nontrivial = runs[0].0 .0 && e.size() > 1;
    judge(n, false, &counts, what)?;
    let faulty = faulty.unwrap().1;
    ensure!(
        faulty.live == 0,
        "{} bytes remain allocated when the sink meets {:?} after {} bytes of {} repetitions of {}",
        faulty.live,
        fault,
        at,
        n,
        what()
    );
    Ok(())
}
