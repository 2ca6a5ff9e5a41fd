//! Writing values and reading them back.

use crate::engine::{Case, Ctx, Prop, R};
use crate::io::{Sink, Source};
use crate::model::*;
use crate::scen;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Elem, Node, Style};
use crate::zoo::{self, SerOpts};
use crate::{ensure, fail};

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        level: "exploration",
        rule: "A case is a random value of one of the derived types (text, struct, enum, flattened, recursive; hand-written and random ones), written under random options to a string and to sinks of random granularity, and read back from sources of random granularity. Non-trivial: the document has content beyond a bare root tag. Fixed cases: very long, very deep, and very wide values.",
        assumptions: &[
            "values hold only characters which XML 1.0 can represent",
            "indentation isn't requested for types with text fields, as it then changes their text",
            "enum variants which hold an empty list or an absent value have no representation and are excluded",
        ],
        quick: 600_000,
        thorough: 6_000_000,
        run: c01,
        fixed: |_| BIG,
        run_fixed: c01_big,
    },
    Prop {
        id: "C02",
        level: "exploration",
        rule: "A case is a random value of one of the derived types, including values which no document can represent and which thus must be refused, written under random options and read by an independent strict parser of namespaced XML 1.0. The result must be exactly the element, attribute, and text tree that the type's declaration implies. Non-trivial: that tree has content beyond a bare root tag, or must be refused.",
        assumptions: &[
            "values hold only characters which XML 1.0 can represent",
            "namespace prefixes don't start with xml, names are valid NCNames",
        ],
        quick: 2_000_000,
        thorough: 8_000_000,
        run: c02,
        fixed: |_| BIG,
        run_fixed: c02_big,
    },
    Prop {
        id: "C03",
        level: "exploration",
        rule: "A case is a document tree for one of the derived types (valid, or mutated one to three times), spelled in several random ways: prefixes, placement of declarations, attribute order, quotes, character references, CDATA, comments, processing instructions, the XML declaration, and insignificant whitespace. All spellings must deserialize alike. Non-trivial: the spellings differ and the tree has content.",
        assumptions: &[
            "spellings avoid what xml-rs 0.8.4 itself can't read (internal DTD subsets, encodings other than UTF-8, line-ending normalization)",
        ],
        quick: 600_000,
        thorough: 4_000_000,
        run: c03,
        fixed: |_| BIG,
        run_fixed: c03_big,
    },
];

/// Whether `id` or anything it refers to has a text field.
fn has_text_field(zoo: &Zoo, id: TyId) -> bool {
    zoo.any(id, &|t| match t {
        Ty::Element(Element {
            body: Body::Struct(f),
            ..
        }) => f.iter().any(|f| f.kind == Kind::Text),
        _ => false,
    })
}

/// A name to serialize as, or `None` for the type's own.
pub fn root_name(src: &mut Src, zoo: &Zoo, id: TyId) -> Option<Name> {
    let locals = ["root", "r", "é", "x-1.2", "_", "Root"];
    match zoo.element(id) {
        None => Some(Name::new("", src.pick(&locals))),
        Some(_) if src.pct(60) => None,
        Some(e) => {
            let i = src.below(e.nss.len() + 1);
            let ns = if i == 0 { "" } else { &e.nss[i - 1].1 };
            Some(Name::new(ns, src.pick(&locals)))
        }
    }
}

pub fn expected_name(zoo: &Zoo, id: TyId, name: &Option<Name>) -> Name {
    match name {
        Some(n) => n.clone(),
        None => zoo.element(id).unwrap().name.clone(),
    }
}

fn sizes(src: &mut Src) -> Vec<usize> {
    (0..src.small(6)).map(|_| 1 + src.small(40)).collect()
}

pub fn describe(zoo: &Zoo, id: TyId) -> String {
    let (ident, ty) = &zoo.tys[id];
    format!("type {} {:?}", ident, ty)
}

fn c01(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|id| zoo.unambiguous(id));
    let val = match zoo.gen_val(src, id, 0, true) {
        Some(v) => v,
        None => return Ok(()),
    };
    let name = root_name(src, zoo, id);
    let indent = src.pct(25) && !has_text_field(zoo, id);
    if indent {
        case.label("indented");
    }
    let no_decl = src.pct(30);
    c01_check(ctx, src, case, id, &val, name, indent, no_decl)
}

#[allow(clippy::too_many_arguments)]
fn c01_check(
    ctx: &Ctx,
    src: &mut Src,
    case: &mut Case,
    id: TyId,
    val: &Val,
    name: Option<Name>,
    indent: bool,
    no_decl: bool,
) -> R {
    let zoo = &ctx.zoo;
    let e = zoo::entry(id);
    let opts = SerOpts {
        indent,
        no_decl,
        name: name.as_ref(),
    };
    let text = match (e.ser_string)(val, opts) {
        Ok(t) => t,
        Err(m) => fail!(
            "{}\ncan't be serialized: {}\nvalue {}",
            describe(zoo, id),
            m,
            clip(val)
        ),
    };
    case.key((id, &text));
    case.nontrivial = text.matches('<').count() > 2 || text.contains("=\"") && text.len() > 60;
    case.sample(|| text.clone());
    let ctx_msg = |what: &str| {
        format!(
            "{}\n{}\ndocument {:?}\nvalue {}",
            describe(zoo, id),
            what,
            xmltree::clip(&text),
            clip(val)
        )
    };
    // To a sink which takes a little at a time.
    let mut sink = Sink::new();
    sink.most = src.small(20);
    sink.interrupt = [0, 2, 3][src.small(3)];
    if let Err(m) = (e.ser)(val, opts, &mut sink) {
        fail!(
            "{}",
            ctx_msg(&format!("can't be serialized to a sink: {}", m))
        );
    }
    ensure!(
        sink.data == text.as_bytes(),
        "{}\nthe sink got {:?}",
        ctx_msg("written differently to a sink"),
        xmltree::clip(&String::from_utf8_lossy(&sink.data))
    );
    let check = |how: &str, r: Result<Val, static_xml::de::Error>| -> R {
        match r {
            Ok(v) if v == *val => Ok(()),
            Ok(v) => fail!(
                "{}\ngot   {}",
                ctx_msg(&format!("came back differently ({})", how)),
                clip(&v)
            ),
            Err(m) => fail!("{}", ctx_msg(&format!("can't be read ({}): {}", how, m))),
        }
    };
    check("from a string", (e.de_str)(&text))?;
    let mut s = Source::new(text.as_bytes());
    s.sizes = sizes(src);
    s.interrupt = [0, 2, 3][src.small(3)];
    check("from a source", (e.de)(&mut s))?;
    ensure!(
        s.pos == text.len(),
        "{}",
        ctx_msg(&format!("only {} bytes were read", s.pos))
    );
    Ok(())
}

pub fn clip(v: &Val) -> String {
    xmltree::clip(&format!("{:?}", v))
}

const BIG: usize = 8;

/// A big value, and whether it may be indented.
fn big(zoo: &Zoo, i: usize) -> (TyId, Val) {
    let id = |n: &str| zoo.by_ident(n);
    let s = |s: String| Val::Text(TVal::Str(s));
    let canary = |s: &str| Val::Text(TVal::Canary(s.to_owned()));
    match i {
        // Deep.
        0 => {
            let mut v = Val::Struct(vec![
                Val::Opt(None),
                Val::Many(vec![]),
                Val::Many(vec![canary("bottom")]),
            ]);
            for d in 0..300 {
                v = Val::Struct(vec![
                    Val::Opt(Some(Box::new(canary(&d.to_string())))),
                    Val::Many(vec![v]),
                    Val::Many(vec![canary("x"); d % 3]),
                ]);
            }
            (id("HRec"), v)
        }
        // Wide.
        1 | 2 => {
            let n = [3_000, 70_000][i - 1];
            (
                id("HList"),
                Val::Struct(vec![
                    Val::Many(vec![]),
                    Val::Many((0..n).map(|i| Val::Text(TVal::Int(i - 17))).collect()),
                    Val::Many((0..n / 7).map(|i| s(format!(" <{}> ", i))).collect()),
                ]),
            )
        }
        // Long text, around the sizes of buffers.
        3..=6 => {
            let n = [8_191, 8_192, 65_537, 1_100_000][i - 3];
            let mut t: String = "aé]]>&\u{1F600}\n".chars().cycle().take(n).collect();
            t.push_str("end");
            (
                id("HList"),
                Val::Struct(vec![
                    Val::Many(vec![]),
                    Val::Many(vec![Val::Text(TVal::Int(1))]),
                    Val::Many(vec![s(t.clone()), s(String::new()), s(t)]),
                ]),
            )
        }
        // A long attribute.
        _ => {
            let mut t: String = "a'é\"<\t".chars().cycle().take(70_000).collect();
            t.push('.');
            (
                id("HRec"),
                Val::Struct(vec![
                    Val::Opt(Some(Box::new(Val::Text(TVal::Canary(t))))),
                    Val::Many(vec![]),
                    Val::Many(vec![]),
                ]),
            )
        }
    }
}

fn c01_big(ctx: &Ctx, i: usize, case: &mut Case) -> R {
    let (id, val) = big(&ctx.zoo, i);
    case.label("big");
    let mut src = Src::fresh(ctx.seed ^ i as u64);
    c01_check(ctx, &mut src, case, id, &val, None, i % 2 == 1, i % 3 == 1)
}

fn c02(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let mut val = match zoo.gen_val(src, id, 0, false) {
        Some(v) => v,
        None => return Ok(()),
    };
    // Skipped variants and unwritable text, which must be refused.
    if src.pct(10) && zoo.spoil(src, id, &mut val) {
        case.label("spoiled");
    }
    let name = root_name(src, zoo, id);
    let indent = src.pct(25);
    let no_decl = src.pct(30);
    c02_check(ctx, case, id, &val, name, indent, no_decl)
}

/// Removes whitespace which indentation may have added.
fn unindent(e: &mut Elem) {
    if e.elems().next().is_some() {
        e.kids
            .retain(|k| !matches!(k, Node::Text(t) if t.trim_matches(&['\n', ' '][..]).is_empty()));
    }
    for k in &mut e.kids {
        match k {
            Node::Elem(c) => unindent(c),
            Node::Text(_) => {}
        }
    }
}

fn has_mixed(e: &Elem) -> bool {
    let text = e.kids.iter().any(|k| matches!(k, Node::Text(_)));
    (text && e.elems().next().is_some()) || e.elems().any(has_mixed)
}

fn c02_check(
    ctx: &Ctx,
    case: &mut Case,
    id: TyId,
    val: &Val,
    name: Option<Name>,
    indent: bool,
    no_decl: bool,
) -> R {
    let zoo = &ctx.zoo;
    let e = zoo::entry(id);
    let want = zoo.infoset(id, val, &expected_name(zoo, id, &name));
    let indent = indent && want.as_ref().map_or(true, |w| !has_mixed(w));
    let got = (e.ser_string)(
        val,
        SerOpts {
            indent,
            no_decl,
            name: name.as_ref(),
        },
    );
    let (want, text) = match (want, got) {
        (None, Err(_)) => {
            case.label("refused");
            case.nontrivial = true;
            case.key((id, format!("{:?}", val)));
            return Ok(());
        }
        (None, Ok(text)) => fail!(
            "{}\nvalue {}\nhas no representation, but was written as {:?}",
            describe(zoo, id),
            clip(val),
            xmltree::clip(&text)
        ),
        (Some(_), Err(m)) => fail!(
            "{}\nvalue {}\ncan't be serialized: {}",
            describe(zoo, id),
            clip(val),
            m
        ),
        (Some(w), Ok(t)) => (w, t),
    };
    case.key((id, &text));
    case.sample(|| text.clone());
    case.nontrivial = !want.kids.is_empty() || !want.attrs.is_empty();
    if want.depth() > 2 {
        case.label("nested");
    }
    ensure!(
        text.starts_with("<?xml ") == !no_decl,
        "an XML declaration is {}: {:?}",
        if no_decl { "unwanted" } else { "wanted" },
        xmltree::clip(&text)
    );
    let mut got = match xmltree::parse(&text) {
        Ok(g) => g,
        Err(m) => fail!(
            "{}\nvalue {}\nwritten as ill-formed XML: {}\n{}",
            describe(zoo, id),
            clip(val),
            m,
            xmltree::clip(&text)
        ),
    };
    let mut want = want.canonical();
    if indent {
        unindent(&mut got);
        unindent(&mut want);
    }
    let got = got.canonical();
    ensure!(
        got == want,
        "{}\nvalue {}\nwritten as {:?}\nwhich is\n{}which should be\n{}",
        describe(zoo, id),
        clip(val),
        xmltree::clip(&text),
        got.show(),
        want.show()
    );
    Ok(())
}

fn c02_big(ctx: &Ctx, i: usize, case: &mut Case) -> R {
    let (id, val) = big(&ctx.zoo, i);
    case.label("big");
    c02_check(ctx, case, id, &val, None, false, i % 2 == 1)
}

fn c03(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let n = if src.pct(60) { 0 } else { 1 + src.small(3) };
    let (tree, _) = match scen::document(src, zoo, id, n) {
        Some(d) => d,
        None => return Ok(()),
    };
    c03_check(ctx, src, case, id, &tree, 3)
}

fn c03_check(ctx: &Ctx, src: &mut Src, case: &mut Case, id: TyId, tree: &Elem, n: usize) -> R {
    let e = zoo::entry(id);
    let plain = xmltree::render(src, tree, Style::PLAIN).text;
    let want = (e.de)(&mut plain.as_bytes());
    case.key((id, &plain));
    let mut differ = false;
    case.label(if want.is_ok() { "accepted" } else { "rejected" });
    for _ in 0..n {
        let other = xmltree::render(src, tree, Style::VARIED).text;
        differ |= other != plain;
        case.key(&other);
        let got = (e.de)(&mut other.as_bytes());
        let ok = match (&want, &got) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !ok {
            let show = |r: &Result<Val, static_xml::de::Error>| match r {
                Ok(v) => clip(v),
                Err(e) => format!("error {}", e),
            };
            fail!(
                "{}\ntwo spellings of the same document mean different things:\n{:?}\nis   {}\n{:?}\nis   {}",
                describe(&ctx.zoo, id),
                xmltree::clip(&plain),
                show(&want),
                xmltree::clip(&other),
                show(&got)
            );
        }
        case.sample(|| other.clone());
    }
    case.nontrivial = differ && (!tree.kids.is_empty() || !tree.attrs.is_empty());
    Ok(())
}

fn c03_big(ctx: &Ctx, i: usize, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let (id, val) = big(zoo, i);
    let tree = zoo.infoset(id, &val, &Name::new("", "root")).unwrap();
    case.label("big");
    let mut src = Src::fresh(ctx.seed ^ i as u64);
    c03_check(ctx, &mut src, case, id, &tree, if i == 2 { 1 } else { 2 })
}
