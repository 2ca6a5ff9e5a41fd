//! Ownership of what deserialization constructs.

use crate::canary;
use crate::engine::{last_panic, Case, Ctx, Prop, R};
use crate::io::Source;
use crate::scen;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Style};
use crate::zoo;
use crate::{ensure, fail};
use std::io::{ErrorKind, Read};

pub const PROPS: &[Prop] = &[Prop {
    id: "C16",
    level: "exploration",
    rule: "A case is a document (valid, or mutated up to three times) for a derived type. It's deserialized as is (and the value looked at, then dropped), and again with every possible panic (in each call of a user's parser or Default implementation, and of the byte source), cut short at up to 24 offsets, and with the source failing at up to 12 offsets, so that deserialization ends at every point of the type. Text values of a type which counts its instances, recognizes itself, and distrusts memory it didn't initialize must all be gone thereafter, none dropped twice. Evaluations count the single runs. Non-trivial: at least one such value was constructed. Crashes of the process count as violations.",
    assumptions: &["values are dropped, rather than leaked, by the caller"],
    quick: 110_000,
    thorough: 1_500_000,
    run: c16,
    fixed: |_| 0,
    run_fixed: |_, _, _| Ok(()),
}];

/// Panics after so many bytes.
struct Panicking<'a>(&'a [u8], usize);

impl<'a> Read for Panicking<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            std::panic::panic_any(canary::CanaryPanic);
        }
        let n = buf.len().min(self.1).min(self.0.len()).min(3);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    Ok,
    Err,
    Panic,
}

fn c16(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let counted = |id: TyId| zoo.any(id, &|t| matches!(t, Ty::Text(TextTy::Prim(Prim::Canary))));
    let all = src.pct(10);
    let id = scen::pick_type(src, zoo, &|id| all || counted(id));
    let mutations = [0, 1, 1, 2, 3][src.below(5)];
    let (e, how) = match scen::document(src, zoo, id, mutations) {
        Some(d) => d,
        None => return Ok(()),
    };
    let style = if src.pct(25) {
        Style::VARIED
    } else {
        Style::PLAIN
    };
    let text = xmltree::render(src, &e, style).text;
    let entry = zoo::entry(id);
    case.key((id, &text));
    case.sample(|| format!("{} as {}", text, zoo.tys[id].0));
    for h in how {
        case.label(h);
    }

    let check = |what: &dyn Fn() -> String,
                 panic_in: Option<u64>,
                 f: &mut dyn FnMut() -> Result<(), static_xml::de::Error>|
     -> Result<(End, u64, u64), crate::engine::Fail> {
        canary::reset(panic_in);
        let end = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(())) => End::Ok,
            Ok(Err(e)) => {
                drop(e);
                End::Err
            }
            Err(p) if p.is::<canary::CanaryPanic>() => End::Panic,
            Err(_) => fail!("{} panicked: {}", what(), last_panic()),
        };
        let (created, live, faults) = canary::report();
        let events = canary::events();
        ensure!(
            live == 0 && faults.is_empty(),
            "{}, which ended with {:?}, left {} of {} values alive{}{}\n{}\n{}",
            what(),
            end,
            live,
            created,
            if faults.is_empty() { "" } else { ", and " },
            faults.join(", and "),
            text,
            super::roundtrip::describe(zoo, id)
        );
        Ok((end, created, events))
    };

    let bytes = text.as_bytes();
    let (end, created, events) = check(&|| "reading".to_owned(), None, &mut || {
        (entry.de_drop)(&mut &bytes[..])
    })?;
    case.nontrivial = created > 0;
    case.label(match (end, created) {
        (End::Ok, 0) => "success, nothing constructed",
        (End::Ok, _) => "success",
        (_, 0) => "error, nothing constructed",
        _ => "error",
    });
    // Look at it, too.
    let mut same = None;
    check(
        &|| "reading and viewing".to_owned(),
        None,
        &mut || match (entry.de_str)(&text) {
            Ok(v) => {
                same = Some(format!("{:?}", v));
                Ok(())
            }
            Err(e) => Err(e),
        },
    )?;
    ensure!(
        same.is_some() == (end == End::Ok),
        "from_str and read disagree about {}",
        text
    );
    let step = events.div_ceil(40).max(1);
    let first = if step > 1 {
        src.below(step as usize) as u64
    } else {
        0
    };
    for n in (first..events).step_by(step as usize) {
        let (end, created, _) = check(
            &|| format!("a panic in call {} of a user's function", n),
            Some(n),
            &mut || (entry.de_drop)(&mut &bytes[..]),
        )?;
        ensure!(end == End::Panic, "call {} never happened in {}", n, text);
        case.also(created > 0, ("panic", n, &text, id));
    }
    let mut offsets = |n: usize| -> Vec<usize> {
        let step = (bytes.len() / n).max(1);
        let first = if step > 1 { src.below(step) } else { 0 };
        (first..bytes.len()).step_by(step).collect()
    };
    for at in offsets(24) {
        let (_, created, _) = check(&|| format!("input cut at {}", at), None, &mut || {
            (entry.de_drop)(&mut &bytes[..at])
        })?;
        case.also(created > 0, ("cut", at, &text, id));
    }
    for at in offsets(12) {
        let (_, created, _) = check(
            &|| format!("a source which fails at {}", at),
            None,
            &mut || {
                let mut s = Source::new(bytes);
                s.sizes = vec![5; bytes.len()];
                s.fail = Some((at, ErrorKind::Other));
                s.once = at % 2 == 0;
                (entry.de_drop)(&mut s)
            },
        )?;
        case.also(created > 0, ("fail", at, &text, id));
    }
    for at in offsets(8) {
        let (_, created, _) = check(
            &|| format!("a source which panics at {}", at),
            None,
            &mut || (entry.de_drop)(&mut Panicking(bytes, at)),
        )?;
        case.also(created > 0, ("panicking", at, &text, id));
    }
    Ok(())
}
