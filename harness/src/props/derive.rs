//! How the derived types interpret documents.

use super::roundtrip::{clip, describe};
use crate::engine::{Case, Ctx, Prop, R};
use crate::model::*;
use crate::scen;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Elem, Node, Style};
use crate::zoo;
use crate::{ensure, fail};

const ASSUME: &[&str] = &[
    "the reference model states the documented meaning of the derive attributes; where the documentation is silent (repeating a fieldless enum variant), either outcome is accepted",
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C04",
        level: "exploration",
        rule: "A case is a valid document for one of the derived structs, mutated up to four times (children and attributes dropped, repeated, renamed, reordered, added, or given other text), in a random spelling. Acceptance and the resulting value must match the reference model. Non-trivial: mutated, or a default or a repeated field comes into play.",
        assumptions: ASSUME,
        quick: 2_000_000,
        thorough: 12_000_000,
        run: |c, s, k| model(c, s, k, &|z, id| z.fields(id).is_some() && !z.has_flatten(id)),
        fixed: |_| WIDE,
        run_fixed: wide,
    },
    Prop {
        id: "C05",
        level: "exploration",
        rule: "A case is a valid document for a derived type in which one or more elements or attributes, or added decoys, bear a name that's nearly but not quite meaningful (other namespace, no namespace, other case, a prefix of it, and so on), spelled with adversarial prefixes: the type's own prefixes bound to other namespaces, defaults shadowed and restored. Only expanded names may matter. Non-trivial: at least one near miss, or a namespaced name in the document.",
        assumptions: ASSUME,
        quick: 1_500_000,
        thorough: 12_000_000,
        run: names,
        fixed: crate::engine::no_fixed,
        run_fixed: crate::engine::no_run_fixed,
    },
    Prop {
        id: "C13",
        level: "exploration",
        rule: "A case is a string for a derived text type (one that some value prints as, decorated with white space or changed a little, or any other) or a value of it, parsed or printed directly and as an element. Non-trivial: a value, or a string within two edits of one that means something.",
        assumptions: &["the reference model states the documented meaning of the text modes"],
        quick: 6_000_000,
        thorough: 20_000_000,
        run: text,
        fixed: crate::engine::no_fixed,
        run_fixed: crate::engine::no_run_fixed,
    },
    Prop {
        id: "C14",
        level: "exploration",
        rule: "As C04, but for enums and types which contain them: other variants after one is set, the same variant again, unknown and skipped names before, between, and after, variants holding lists and absent values. Every second case also writes the value back. Non-trivial: mutated, or a variant is updated.",
        assumptions: ASSUME,
        quick: 1_200_000,
        thorough: 12_000_000,
        run: |c, s, k| model(c, s, k, &|z, id| {
            z.any(id, &|t| matches!(t, Ty::Element(Element { body: Body::Enum(_), .. })))
        }),
        fixed: crate::engine::no_fixed,
        run_fixed: crate::engine::no_run_fixed,
    },
    Prop {
        id: "C15",
        level: "exploration",
        rule: "As C04, but for types with flattened fields: structs within structs several levels deep, several enums side by side, overlapping names, and flattened text. Non-trivial: something was delegated to a flattened field.",
        assumptions: ASSUME,
        quick: 1_500_000,
        thorough: 12_000_000,
        run: |c, s, k| model(c, s, k, &|z, id| z.has_flatten(id)),
        fixed: crate::engine::no_fixed,
        run_fixed: crate::engine::no_run_fixed,
    },
];

/// Compares with the model. Returns whether the document was accepted, or `None` if its meaning
/// isn't specified.
pub fn decide(
    ctx: &Ctx,
    src: &mut Src,
    case: &mut Case,
    id: TyId,
    tree: &Elem,
    style: Style,
) -> Result<(Interp, Option<Val>), crate::engine::Fail> {
    let zoo = &ctx.zoo;
    let mut facts = Interp::default();
    let want = zoo.interp(id, tree, &mut facts);
    let doc = xmltree::render(src, tree, style).text;
    let got = (zoo::entry(id).de)(&mut doc.as_bytes());
    case.key((id, &doc));
    case.sample(|| doc.clone());
    if facts.unspecified {
        case.label("unspecified");
        return Ok((facts, None));
    }
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => {
            case.label("accepted");
            Ok((facts, Some(a)))
        }
        (Err(e), Err(_)) => {
            case.label(match e.why {
                Why::Text => "rejected: text",
                Why::ElementInText => "rejected: element in text",
                Why::MissingElement => "rejected: missing element",
                Why::MissingAttribute => "rejected: missing attribute",
                Why::DuplicateElement => "rejected: duplicate element",
                Why::DuplicateAttribute => "rejected: duplicate attribute",
                Why::OtherVariant => "rejected: other variant",
                Why::Empty => "rejected: empty",
            });
            Ok((facts, None))
        }
        (want, got) => fail!(
            "{}\ndocument {:?}\nmeans  {}\nbut read as {}",
            describe(zoo, id),
            xmltree::clip(&doc),
            match want {
                Ok(v) => clip(&v),
                Err(e) => format!("an error: {:?} at {:?}", e.why, e.path),
            },
            match got {
                Ok(v) => clip(&v),
                Err(e) => format!("an error: {}", e),
            }
        ),
    }
}

fn model(ctx: &Ctx, src: &mut Src, case: &mut Case, ok: &dyn Fn(&Zoo, TyId) -> bool) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|id| ok(zoo, id));
    let n = [0, 1, 1, 2, 3, 4][src.below(6)];
    let (tree, how) = match scen::document(src, zoo, id, n) {
        Some(d) => d,
        None => return Ok(()),
    };
    for h in how {
        case.label(h);
    }
    let style = if src.pct(50) {
        Style::PLAIN
    } else {
        Style::VARIED
    };
    let (facts, val) = decide(ctx, src, case, id, &tree, style)?;
    case.nontrivial = if zoo.has_flatten(id) {
        facts.delegated > 0
    } else {
        n > 0 || facts.defaulted > 0 || facts.updated > 0
    };
    if facts.defaulted > 0 {
        case.label("defaulted");
    }
    if facts.updated > 0 {
        case.label("updated");
    }
    if facts.delegated > 0 {
        case.label("delegated");
    }
    if facts.ignored > 0 {
        case.label("ignored");
    }
    // What was read must also be written as the model says.
    if let (Some(val), true) = (val, src.pct(30)) {
        let name = Name::new("", "root");
        let want = zoo.infoset(id, &val, &name);
        let got = (zoo::entry(id).ser_string)(
            &val,
            zoo::SerOpts {
                name: Some(&name),
                ..Default::default()
            },
        );
        match (&want, &got) {
            (None, Err(_)) => {}
            (Some(w), Ok(t)) => {
                let g = xmltree::parse(t).map_err(|m| crate::engine::Fail { msg: m })?;
                ensure!(
                    g.canonical() == w.canonical(),
                    "{}\nvalue {}\nwritten as {:?}, not\n{}",
                    describe(zoo, id),
                    clip(&val),
                    xmltree::clip(t),
                    w.show()
                );
            }
            _ => fail!(
                "{}\nvalue {}\nis written as {:?}, not {:?}",
                describe(zoo, id),
                clip(&val),
                got,
                want.map(|w| w.show())
            ),
        }
    }
    Ok(())
}

/// Documents with very many of everything.
const WIDE: usize = 4;

fn wide(ctx: &Ctx, i: usize, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let mut src = Src::fresh(ctx.seed.wrapping_add(i as u64));
    let id = zoo.by_ident(["HWide", "HRec", "HList", "HElems"][i]);
    let voc = scen::vocab(zoo, id);
    let mut tree = loop {
        if let Some((t, _)) = scen::document(&mut src, zoo, id, 0) {
            break t;
        }
    };
    // Unknown things don't matter, however many there are.
    for _ in 0..2_000 {
        let j = src.below(tree.kids.len() + 1);
        let mut e = scen::junk_elem(&mut src, &voc, 0);
        e.name = Name::new("urn:unknown", "junk");
        tree.kids.insert(j, Node::Elem(e));
    }
    for j in 0..500 {
        tree.attrs.push((
            Name::new("urn:unknown", &format!("junk{}", j)),
            "v".to_owned(),
        ));
    }
    case.label("wide");
    case.nontrivial = true;
    decide(ctx, &mut src, case, id, &tree, Style::VARIED)?;
    Ok(())
}

fn names(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|id| zoo.element(id).is_some());
    let (mut tree, _) = match scen::document(src, zoo, id, 0) {
        Some(d) => d,
        None => return Ok(()),
    };
    let voc = scen::vocab(zoo, id);
    let mut missed = 0;
    for _ in 0..src.small(4) {
        let at = if src.pct(40) {
            0
        } else {
            src.below(tree.size())
        };
        let e = tree.nth_mut(at);
        let n = e.kids.len();
        match src.below(4) {
            // Decoys.
            0 if !voc.elems.is_empty() => {
                let (name, ty) = src.pick(&voc.elems).clone();
                let mut c = match zoo.gen_val(src, ty, 4, true) {
                    Some(v) if src.pct(60) => zoo.infoset_lenient(ty, &v, &name),
                    _ => scen::junk_elem(src, &voc, 3),
                };
                c.name = scen::near_miss(src, &name);
                let j = src.below(n + 1);
                e.kids.insert(j, Node::Elem(c));
                missed += 1;
            }
            1 if !voc.attrs.is_empty() => {
                let name = src.pick(&voc.attrs).0.clone();
                let name = scen::near_miss(src, &name);
                if name.ns != XML_NS && e.attr(&name).is_none() {
                    let v = gen_string(src);
                    e.attrs.push((name, v));
                    missed += 1;
                }
            }
            // Renamed.
            2 if n > 0 => {
                let i = src.below(n);
                if let Node::Elem(c) = &mut e.kids[i] {
                    c.name = scen::near_miss(src, &c.name);
                    missed += 1;
                }
            }
            3 if !e.attrs.is_empty() => {
                let i = src.below(e.attrs.len());
                let m = scen::near_miss(src, &e.attrs[i].0);
                if m.ns != XML_NS && e.attr(&m).is_none() {
                    e.attrs[i].0 = m;
                    missed += 1;
                }
            }
            _ => {}
        }
    }
    scen::tidy(&mut tree);
    let style = Style {
        noise: 2,
        ns: 60,
        chars: 0,
        outside: true,
    };
    if missed > 0 {
        case.label("near miss");
    }
    fn namespaced(e: &Elem) -> bool {
        !e.name.ns.is_empty()
            || e.attrs.iter().any(|(n, _)| !n.ns.is_empty())
            || e.elems().any(namespaced)
    }
    case.nontrivial = missed > 0 || namespaced(&tree);
    decide(ctx, src, case, id, &tree, style)?;
    Ok(())
}

fn text(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(
        src,
        zoo,
        &|id| matches!(zoo.text(id), Some(t) if !matches!(t, TextTy::Prim(_))),
    );
    let e = zoo::entry(id);
    let v = zoo.gen_text_any(src, id);
    if src.pct(30) {
        case.label("value");
        case.key((id, format!("{:?}", v)));
        case.sample(|| format!("{} {:?}", zoo.tys[id].0, v));
        case.nontrivial = true;
        let want = zoo.to_text(id, &v);
        let got = (e.to_text.unwrap())(&v);
        ensure!(
            got.as_ref().ok() == want.as_ref(),
            "{}\nvalue {:?}\nis written as {:?} rather than {:?}",
            describe(zoo, id),
            v,
            got,
            want
        );
        return Ok(());
    }
    let mut s = match src.weighted(&[70, 15, 15]) {
        0 => zoo.to_text(id, &v).unwrap_or_default(),
        1 => gen_string(src),
        _ => {
            // Another type's.
            let other = scen::pick_type(src, zoo, &|id| zoo.text(id).is_some());
            let v = zoo.gen_text_any(src, other);
            zoo.to_text(other, &v).unwrap_or_default()
        }
    };
    let edits = src.small(4);
    for _ in 0..edits {
        let n = s.chars().count();
        let at = src.below(n + 1);
        let at = s.char_indices().nth(at).map_or(s.len(), |(i, _)| i);
        match src.below(7) {
            0 => s.insert_str(0, src.pick(&[" ", "\t", "\n ", "\r", "\u{a0}"])),
            1 => s.push_str(src.pick(&[" ", "\t", "\n ", "\r", "\u{a0}"])),
            2 => s.insert_str(at, src.pick(&[" ", "  ", "\t", "\n", "x", "A", "!", "1"])),
            3 if !s.is_empty() => {
                s.pop();
            }
            4 => s = s.to_uppercase(),
            5 => s = s.to_lowercase(),
            _ => s = s.replace(' ', src.pick(&["\n", "  ", "\t", ""])),
        }
    }
    let want = zoo.parse_text(id, &s);
    case.key((id, &s));
    case.sample(|| format!("{} {:?}", zoo.tys[id].0, s));
    case.label(if want.is_some() {
        "accepted"
    } else {
        "rejected"
    });
    case.nontrivial = edits <= 2;
    let got = (e.parse.unwrap())(&s);
    ensure!(
        got.as_ref().ok() == want.as_ref(),
        "{}\ntext {:?}\nis {:?} rather than {:?}",
        describe(zoo, id),
        s,
        got,
        want
    );
    // As an element.
    let mut tree = Elem::new(Name::new("", "r"));
    tree.push_text(&s);
    let doc = xmltree::render(src, &tree, Style::PLAIN).text;
    let got = (e.de_str)(&doc);
    ensure!(
        got.as_ref().ok() == want.clone().map(Val::Text).as_ref(),
        "{}\ndocument {:?}\nis {:?} rather than {:?}",
        describe(zoo, id),
        doc,
        got,
        want
    );
    Ok(())
}
