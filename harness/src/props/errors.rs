//! What deserialization errors say.

use crate::canary::CanaryError;
use crate::engine::{Case, Ctx, Prop, R};
use crate::io::{Injected, Source};
use crate::model::*;
use crate::props::roundtrip::describe;
use crate::props::visitor::{self, Act, At, Expect, Plan, Planned, Root, Swallow, Typed};
use crate::schema::{Prim, TextTy, TyId, Zoo};
use crate::source::Src;
use crate::xmltree::{self, Elem, Node, Placed, Style};
use crate::zoo::{self, StdError};
use crate::{ensure, fail, scen};
use static_xml::de::Error;
use std::error::Error as _;
use std::io::ErrorKind;

pub const PROPS: &[Prop] = &[Prop {
    id: "C08",
    level: "exploration",
    rule: "Three kinds of cases: a mutated document of a random derived type, whose first fault and its place the model predicts; a random tree read by planned visitors, one of which gives up at a planned place; a document of either kind cut off, made malformed, or with a failing source at a random place. Oracle: the stack and positions follow from where the renderer put each tag. Non-trivial: an error with at least two elements on its stack, or at least one and a source which is compared.",
    assumptions: &[
        "the position of an error found at the end of the root isn't specified",
        "the wording isn't specified, except that it names the element or attribute missing, duplicated or unexpected",
    ],
    quick: 1_500_000,
    thorough: 10_000_000,
    run: c08,
    fixed: crate::engine::no_fixed,
    run_fixed: crate::engine::no_run_fixed,
}];

type Open<'a> = (&'a Elem, &'a Placed);

/// The element children of `e` with where they are.
fn kids<'a>(o: Open<'a>) -> impl Iterator<Item = Open<'a>> {
    o.0.elems().zip(&o.1.kids)
}

fn at_elem_path<'a>(root: Open<'a>, path: &[usize]) -> Vec<Open<'a>> {
    let mut out = vec![root];
    for &i in path {
        let last = *out.last().unwrap();
        out.push(kids(last).nth(i).unwrap());
    }
    out
}

/// Which elements are open once the first `k` bytes have been read.
fn open_at<'a>(root: Open<'a>, k: usize) -> Vec<Open<'a>> {
    let mut out = Vec::new();
    let mut at = Some(root);
    while let Some(o) = at {
        if o.1.open > k || k >= o.1.end {
            break;
        }
        out.push(o);
        at = kids(o).find(|c| c.1.open <= k && k < c.1.end);
    }
    out
}

fn show(stack: &[Open<'_>]) -> String {
    let mut s = String::new();
    for (i, (e, p)) in stack.iter().enumerate() {
        s.push_str(&format!(
            "\n  {} {} prefix {:?} at {}:{}",
            i,
            e.name,
            p.prefix,
            p.row + 1,
            p.col + 1
        ));
    }
    s
}

/// Checks what doesn't depend on the cause. Returns the message proper.
fn check(
    e: &Error,
    stack: &[Open<'_>],
    pos: Option<(u64, u64)>,
) -> Result<String, crate::engine::Fail> {
    let got = e.stack();
    let same = got.len() == stack.len()
        && got.iter().zip(stack).all(|(g, (e, p))| {
            g.name.local_name == e.name.local
                && g.name.namespace.as_deref().unwrap_or("") == e.name.ns
                && g.name.prefix.as_deref().unwrap_or("") == p.prefix
                && (g.pos.row, g.pos.column) == (p.row, p.col)
        });
    ensure!(
        same,
        "the stack isn't the expected one:{}\nbut {:?}",
        show(stack),
        got
    );
    let text = e.to_string();

    // The clone is the same error.
    let c = e.clone();
    ensure!(
        c.to_string() == text,
        "a clone reads {} rather than {}",
        c,
        text
    );
    ensure!(
        c.stack().len() == got.len(),
        "a clone's stack is {:?}",
        c.stack()
    );
    match (e.source(), c.source()) {
        (None, None) => {}
        (Some(a), Some(b)) if a.to_string() == b.to_string() => {}
        (a, b) => fail!("the source is {:?}, and a clone's {:?}", a, b),
    }

    // The message.
    let mut rest = &text[..];
    if !stack.is_empty() {
        for (i, (el, p)) in stack.iter().enumerate() {
            let q = if p.prefix.is_empty() {
                el.name.local.clone()
            } else {
                format!("{}:{}", p.prefix, el.name.local)
            };
            let tail = format!(": <{}> @ {}:{}", q, p.row + 1, p.col + 1);
            let (before, line) = rest
                .strip_suffix('\n')
                .unwrap_or(rest)
                .rsplit_once('\n')
                .unwrap_or(("", rest));
            let num = line.strip_suffix(&tail[..]).map(str::trim_start);
            ensure!(
                num.map_or(false, |n| n == format!("{}", i) || n == format!("{:x}", i)),
                "line {:?} of the message isn't of the form {:?} for level {}:\n{}",
                line,
                tail,
                i,
                text
            );
            rest = &rest[..before.len()];
        }
        rest = match rest.trim_end().strip_suffix("XML element stack:") {
            Some(r) => r.trim_end_matches('\n'),
            None => fail!(
                "the message has unexpected lines above the root: {:?}",
                text
            ),
        };
    }
    let (msg, at) = match rest.rsplit_once(" @ ") {
        Some(m) => m,
        None => fail!("the message has no position: {:?}", text),
    };
    let at = at
        .split_once(':')
        .and_then(|(r, c)| Some((r.parse::<u64>().ok()?, c.parse::<u64>().ok()?)));
    let at = match at {
        Some((r, c)) if r > 0 && c > 0 => (r - 1, c - 1),
        _ => fail!("the message has a strange position: {:?}", text),
    };
    if let Some(p) = pos {
        ensure!(
            at == p,
            "the error is said to be at {}:{} rather than {}:{}:\n{}",
            at.0 + 1,
            at.1 + 1,
            p.0 + 1,
            p.1 + 1,
            text
        );
    }
    if let Some(x) = e
        .source()
        .and_then(|s| s.downcast_ref::<xml::reader::Error>())
    {
        use xml::common::Position;
        let p = x.position();
        ensure!(
            at == (p.row, p.column),
            "the parser found the error at {}, but the message says {}",
            p,
            text
        );
        ensure!(
            msg == x.msg(),
            "the parser says {:?}, but the message {:?}",
            x.msg(),
            msg
        );
    }
    Ok(msg.to_owned())
}

fn c08(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    match src.weighted(&[40, 25, 35]) {
        0 => derived(ctx, src, case),
        1 => planned(src, case),
        _ => broken(ctx, src, case),
    }
}

/// Renders, and replaces the place of each element by where xml-rs says it is, which is a bit off
/// near references, comments, and the like.
fn render(src: &mut Src, tree: &Elem) -> Result<xmltree::Doc, crate::engine::Fail> {
    let style = style(src);
    let mut doc = xmltree::render(src, tree, style);
    let exact = visitor::exact(&doc.text);
    fn go(p: &mut Placed, at: &mut dyn Iterator<Item = (u64, u64)>, exact: bool) -> Option<()> {
        let (r, c) = at.next()?;
        if exact && (r, c) != (p.row, p.col) {
            return None;
        }
        (p.row, p.col) = (r, c);
        p.kids.iter_mut().try_for_each(|k| go(k, at, exact))
    }
    let mut reader = xml::reader::EventReader::new(doc.text.as_bytes());
    let mut starts = Vec::new();
    loop {
        use xml::common::Position;
        match reader.next() {
            Ok(xml::reader::XmlEvent::StartElement { .. }) => {
                let p = reader.position();
                starts.push((p.row, p.column));
            }
            Ok(xml::reader::XmlEvent::EndDocument) => break,
            Ok(_) => {}
            Err(e) => fail!("xml-rs rejects {:?}: {}", doc.text, e),
        }
    }
    if go(&mut doc.root, &mut starts.into_iter(), exact).is_none() {
        fail!("xml-rs puts some element of {:?} elsewhere", doc.text);
    }
    Ok(doc)
}

fn style(src: &mut Src) -> Style {
    if src.pct(40) {
        Style::PLAIN
    } else {
        Style::VARIED
    }
}

/// Whether the error may be due to this fault.
fn explains(zoo: &Zoo, e: &Error, msg: &str, f: &Fault) -> bool {
    match f.why {
        Why::Text => {
            let (id, text) = f.text.as_ref().unwrap();
            let s = match e.source() {
                Some(s) => s,
                None => return false,
            };
            if s.to_string() != msg {
                return false;
            }
            match zoo.text(*id).unwrap() {
                TextTy::Prim(Prim::Canary) => s
                    .downcast_ref::<CanaryError>()
                    .map_or(false, |c| c.0 == *text),
                TextTy::Prim(Prim::F32) | TextTy::Prim(Prim::F64) => {
                    s.is::<std::num::ParseFloatError>()
                }
                TextTy::Prim(Prim::Bool) | TextTy::Prim(Prim::Str) => true,
                TextTy::Prim(_) => s.is::<std::num::ParseIntError>(),
                TextTy::Std { .. } => s.is::<StdError>(),
                _ => true,
            }
        }
        Why::Empty => true,
        Why::ElementInText
        | Why::MissingElement
        | Why::MissingAttribute
        | Why::DuplicateElement
        | Why::DuplicateAttribute
        | Why::OtherVariant => msg.contains(&f.name.as_ref().unwrap().local),
    }
}

fn derived(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let n = 1 + src.small(4);
    let (tree, _) = match scen::document(src, zoo, id, n) {
        Some(d) => d,
        None => return Ok(()),
    };
    let mut facts = Interp::default();
    let want = zoo.interp(id, &tree, &mut facts);
    let doc = render(src, &tree)?;
    case.key((id, &doc.text));
    case.sample(|| doc.text.clone());
    if facts.unspecified {
        return Ok(());
    }
    let got = (zoo::entry(id).de)(&mut doc.text.as_bytes());
    let (want, got) = match (want, got) {
        (Err(w), Err(g)) => (w, g),
        _ => {
            // Another property's concern.
            case.label("no error");
            return Ok(());
        }
    };
    case.label("derived type");
    let mut stack = vec![(&tree, &doc.root)];
    for &i in &want.path {
        let (e, p) = *stack.last().unwrap();
        let j = e.kids[..i]
            .iter()
            .filter(|k| matches!(k, Node::Elem(_)))
            .count();
        let c = match &e.kids[i] {
            Node::Elem(c) => c,
            _ => unreachable!(),
        };
        stack.push((c, &p.kids[j]));
    }
    let last = stack.last().unwrap().1;
    // The position of what's noticed at the end of the root isn't specified.
    let pos = if stack.len() > 1 || want.attrs {
        Some((last.row, last.col))
    } else {
        None
    };
    let r = check(&got, &stack, pos).and_then(|msg| {
        ensure!(
            want.faults.iter().any(|f| explains(zoo, &got, &msg, f)),
            "the message or the source doesn't fit {:?}: {} (source {:?})",
            want.faults,
            msg,
            got.source()
        );
        Ok(())
    });
    case.nontrivial = stack.len() > 1 || want.why == Why::Text;
    r.map_err(|f| crate::engine::Fail {
        msg: format!(
            "{}\n{}\ndocument: {}\nfault: {:?}\nerror: {}",
            f.msg,
            describe(zoo, id),
            xmltree::clip(&doc.text),
            want,
            got
        ),
    })
}

fn planned(src: &mut Src, case: &mut Case) -> R {
    let mut left = 2 + src.below(16);
    let mut tree = visitor::gen_tree(src, 1, &mut left);
    visitor::inflate(src, &mut tree);
    let plan = visitor::gen_plan(src, &tree, &mut 0);
    let mut act = Act::Visit(plan);
    visitor::deepen(src, &mut tree, &mut act, &mut Swallow::No);
    let doc = render(src, &tree)?;
    case.key((&doc.text, format!("{:?}", act)));
    case.sample(|| format!("{}\n{:?}", doc.text, act));
    let mut ex = Expect::new();
    let want = ex.act(&act, &tree, &doc.root, 1, &mut None);
    visitor::PLAN.with(|p| *p.borrow_mut() = Some((act.clone(), Swallow::No)));
    let got = static_xml::de::from_str::<Root>(&doc.text);
    let (want, got) = match (want, got) {
        (Err(w), Err(g)) => (w, g),
        _ => {
            case.label("no error");
            return Ok(());
        }
    };
    if ex.unclear {
        case.label("unclear");
        return Ok(());
    }
    let (path, at) = ex.at.unwrap();
    let stack = at_elem_path((&tree, &doc.root), &path);
    let last = stack.last().unwrap().1;
    let pos = match at {
        At::Start => (last.row, last.col),
        At::Text => visitor::TEXT_POS.with(|c| c.get()),
    };
    case.label("planned visitors");
    case.nontrivial = true;
    let r = check(&got, &stack, Some(pos)).and_then(|msg| {
        if let visitor::Why::Planned(id) = want {
            ensure!(
                got.source()
                    .and_then(|s| s.downcast_ref::<Planned>())
                    .map(|p| p.0)
                    == Some(id)
                    && msg == format!("planned {}", id),
                "the error should be number {}, but is {} with source {:?}",
                id,
                got,
                got.source()
            );
        }
        Ok(())
    });
    r.map_err(|f| crate::engine::Fail {
        msg: format!(
            "{}\ndocument: {}\nplan: {:?}\nerror: {}",
            f.msg,
            xmltree::clip(&doc.text),
            act,
            got
        ),
    })
}

/// Reads everything or skips some, but doesn't fail by itself.
pub fn reader(src: &mut Src, e: &Elem) -> (Act, Swallow) {
    let texty = e.elems().next().is_none();
    let act = match src.weighted(&[70, 6, 6, 6, 12]) {
        0 => Act::Visit(Plan {
            acts: e.elems().map(|c| reader(src, c)).collect(),
            abort: None,
            id: 0,
        }),
        1 => Act::Drop,
        2 => Act::Pass,
        3 => Act::Null,
        _ if texty => {
            if src.pct(50) {
                Act::ReadString
            } else {
                Act::Typed(Typed::Str)
            }
        }
        _ => Act::Pass,
    };
    let swallow = if src.pct(20) {
        Swallow::Yes
    } else {
        Swallow::No
    };
    (act, swallow)
}

pub fn swallows(a: &(Act, Swallow)) -> bool {
    a.1 == Swallow::Yes
        || match &a.0 {
            Act::Visit(p) => p.acts.iter().any(swallows),
            _ => false,
        }
}

/// Checks that the source of an error is what the parser by itself says about the document.
fn same_source(e: &Error, bytes: &[u8], case: &mut Case) -> R {
    let own = xml::reader::EventReader::new(bytes)
        .into_iter()
        .find_map(|e| e.err());
    let own = match own {
        Some(own) => own,
        None => {
            case.label("not the parser's error");
            return Ok(());
        }
    };
    let fine = match (own.kind(), e.source()) {
        (xml::reader::ErrorKind::Utf8(u), Some(s)) => {
            case.label("invalid UTF-8");
            s.downcast_ref::<std::str::Utf8Error>() == Some(u)
        }
        (_, Some(s)) => s.downcast_ref::<xml::reader::Error>() == Some(&own),
        (_, None) => false,
    };
    ensure!(
        fine,
        "the source should be {:?}, as the parser says, but is {:?}",
        own,
        e.source()
    );
    Ok(())
}

pub const MALFORMED: &[&str] = &[
    "</nope>",
    "&undefined;",
    "<1>",
    "<a b=c/>",
    "<undeclared:x/>",
    "<a x='1' x='2'/>",
    "<a b/>",
    "<!bad>",
    "&;",
    "<a xmlns:q=''/>",
    "<a <b/>",
    "& ",
    "<a b='<'/>",
    "&#0;",
];

#[derive(Clone)]
pub enum Reader {
    Zoo(TyId),
    Plan((Act, Swallow)),
}

fn broken(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let (tree, how) = if src.pct(50) {
        let id = scen::pick_type(src, zoo, &|_| true);
        let n = src.below(3);
        let tree = match scen::document(src, zoo, id, n) {
            Some(d) => d.0,
            None => return Ok(()),
        };
        let mut facts = Interp::default();
        if zoo.interp(id, &tree, &mut facts).is_err() || facts.unspecified {
            case.label("rejected anyway");
            return Ok(());
        }
        (tree, Reader::Zoo(id))
    } else {
        let mut left = 2 + src.below(16);
        let mut tree = visitor::gen_tree(src, 1, &mut left);
        visitor::inflate(src, &mut tree);
        let mut act = reader(src, &tree);
        visitor::deepen(src, &mut tree, &mut act.0, &mut act.1);
        (tree, Reader::Plan(act))
    };
    let doc = render(src, &tree)?;
    let root = (&tree, &doc.root);
    let len = doc.text.len();
    let mut fault = None;
    let mut sizes = Vec::new();
    let stack;
    let bytes: Vec<u8> = match src.below(3) {
        0 => {
            case.label("cut off");
            let k = src.below(doc.root.end);
            stack = open_at(root, k);
            doc.text.as_bytes()[..k].to_vec()
        }
        1 => {
            case.label("source fails");
            let k = src.below(len + 1);
            stack = open_at(root, k);
            fault = Some((
                k,
                *src.pick(&[
                    ErrorKind::Other,
                    ErrorKind::UnexpectedEof,
                    ErrorKind::BrokenPipe,
                    ErrorKind::InvalidData,
                    ErrorKind::TimedOut,
                ]),
            ));
            doc.text.clone().into_bytes()
        }
        _ => {
            // At the start or end of an element's content.
            let mut spots = vec![];
            fn collect(p: &Placed, spots: &mut Vec<usize>) {
                spots.push(p.open);
                for k in &p.kids {
                    collect(k, spots);
                    spots.push(k.end);
                }
            }
            collect(&doc.root, &mut spots);
            let k = *src.pick(&spots);
            stack = open_at(root, k);
            // After a root which has no content to put it in, it's something else entirely.
            case.label(if stack.is_empty() {
                "malformed after the root"
            } else {
                "malformed"
            });
            let piece = src.below(MALFORMED.len() + 2);
            let mut t = doc.text.clone().into_bytes();
            // What follows must neither complete it nor change what it is.
            let piece = match MALFORMED.get(piece) {
                None => &b"\xff\xfe\x80\xc0\xff\xff"[..],
                Some(_) if stack.is_empty() => b"<more/>",
                Some(p) => p.as_bytes(),
            };
            t.splice(k..k, piece.iter().copied());
            t
        }
    };
    if src.pct(30) {
        for _ in 0..src.below(20) {
            sizes.push(1 + src.below(7));
        }
    }
    case.key((&bytes, format!("{:?}", fault)));
    case.nontrivial = !stack.is_empty();
    case.sample(|| format!("{} {:?}", String::from_utf8_lossy(&bytes), fault));
    let mut s = Source::new(&bytes);
    s.fail = fault;
    s.sizes = sizes;
    let (got, swallowed) = match &how {
        Reader::Zoo(id) => ((zoo::entry(*id).de)(&mut s).map(drop), false),
        Reader::Plan(p) => {
            visitor::PLAN.with(|c| *c.borrow_mut() = Some(p.clone()));
            (static_xml::read::<_, Root>(&mut s).map(drop), swallows(p))
        }
    };
    let got = match got {
        Err(e) => e,
        Ok(()) => fail!(
            "this was accepted: {} {:?}",
            String::from_utf8_lossy(&bytes),
            fault
        ),
    };
    let r = check(&got, &stack, None).and_then(|_| {
        if let Some((k, kind)) = fault {
            let io = got
                .source()
                .and_then(|s| s.downcast_ref::<std::io::Error>());
            let fine = match io {
                Some(io) => {
                    io.kind() == kind
                        && (swallowed
                            || io
                                .get_ref()
                                .and_then(|i| i.downcast_ref::<Injected>())
                                .map_or(false, |i| i.0 == k as u64))
                }
                None => false,
            };
            ensure!(
                fine,
                "the source of the error should be the injected one, but is {:?}",
                got.source()
            );
        } else if !stack.is_empty() {
            same_source(&got, &bytes, case)?;
        }
        Ok(())
    });
    r.map_err(|f| crate::engine::Fail {
        msg: format!(
            "{}\ndocument: {}\nfault: {:?}\n{}\nerror: {}",
            f.msg,
            xmltree::clip(&String::from_utf8_lossy(&bytes)),
            fault,
            match &how {
                Reader::Zoo(id) => describe(zoo, *id),
                Reader::Plan(p) => format!("{:?}", p),
            },
            got
        ),
    })
}
