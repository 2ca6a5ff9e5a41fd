//! Which prefixes derived types are written with.

use crate::engine::{Case, Ctx, Prop, R};
use crate::model::*;
use crate::props::builder::{self, Act, Kid, Node, Swallow};
use crate::props::roundtrip::{clip, describe, expected_name, root_name};
use crate::schema::*;
use crate::source::Src;
use crate::xmltree;
use crate::zoo::{self, SerOpts};
use crate::{ensure, fail, scen};
use std::collections::BTreeMap;

pub const PROPS: &[Prop] = &[Prop {
    id: "C18",
    level: "exploration",
    rule: "A case is a random value of a random derived type, written under random options. The namespaces and attributes which its declaration calls for, on which element and in which order, are worked out from the type's description; each declaration in the output must be justified by them and each of them honored, and the same tree written by hand through the builder interface must come out the same. Non-trivial: some namespace is mapped by the root's type and some other by another type written, or one type maps at least two.",
    assumptions: &[
        "it's unspecified which of two prefixes is used if one type maps both to the same URL, except that its attributes use the one which isn't empty",
        "prefixes don't start with xml",
    ],
    quick: 1_500_000,
    thorough: 8_000_000,
    run: c18,
    fixed: crate::engine::no_fixed,
    run_fixed: crate::engine::no_run_fixed,
}];

/// In which order a type asks for its mappings.
#[derive(Clone, Copy)]
enum Order {
    Sorted,
    Reversed,
    Declared,
}

/// The namespaces and attributes which `id` calls for on its element.
fn acts(zoo: &Zoo, id: TyId, v: &Val, order: Order, out: &mut Vec<Act>) -> Option<()> {
    if let Some(e) = zoo.element(id) {
        let mut nss = e.nss.clone();
        match order {
            Order::Sorted => nss.sort(),
            Order::Reversed => {
                nss.sort();
                nss.reverse()
            }
            Order::Declared => {}
        }
        for (p, u) in &nss {
            out.push(Act::Ns(builder::intern(p), builder::intern(u)));
        }
    }
    if let (Some(fields), Val::Struct(vals)) = (zoo.fields(id), v) {
        for (f, v) in fields.iter().zip(vals) {
            let v = match v {
                _ if f.kind != Kind::Attr => continue,
                Val::Opt(None) => continue,
                Val::Opt(Some(v)) => v,
                v => v,
            };
            if let Val::Text(t) = v {
                let text = zoo.to_text(f.ty, t)?;
                out.push(Act::Attr(
                    builder::intern(&f.name.ns),
                    builder::intern(&f.name.local),
                    text,
                ));
            }
        }
        for (f, v) in fields.iter().zip(vals) {
            if f.kind == Kind::Flatten {
                acts(zoo, f.ty, v, order, out)?;
            }
        }
    }
    Some(())
}

fn kid(body: builder::Body) -> Kid {
    Kid {
        body,
        swallow: Swallow::No,
    }
}

fn kids(zoo: &Zoo, id: TyId, v: &Val, order: Order, out: &mut Vec<Kid>) -> Option<()> {
    let field = |ty: TyId, v: &Val, name: &Name, out: &mut Vec<Kid>| -> Option<()> {
        match v {
            Val::Opt(None) => {}
            Val::Opt(Some(v)) => {
                out.push(kid(builder::Body::Direct(node(zoo, ty, v, name, order)?)))
            }
            Val::Many(vs) => {
                for v in vs {
                    out.push(kid(builder::Body::Direct(node(zoo, ty, v, name, order)?)));
                }
            }
            v => out.push(kid(builder::Body::Direct(node(zoo, ty, v, name, order)?))),
        }
        Some(())
    };
    match v {
        Val::Text(t) => out.push(kid(builder::Body::Text(zoo.to_text(id, t)?))),
        Val::Struct(vals) => {
            let fields = zoo.fields(id)?;
            for (f, v) in fields.iter().zip(vals) {
                if let (Kind::Text, Val::Text(t)) = (f.kind, v) {
                    out.push(kid(builder::Body::Text(zoo.to_text(f.ty, t)?)));
                }
            }
            for (f, v) in fields.iter().zip(vals) {
                if f.kind == Kind::Elem {
                    field(f.ty, v, &f.name, out)?;
                }
            }
            for (f, v) in fields.iter().zip(vals) {
                if f.kind == Kind::Flatten {
                    kids(zoo, f.ty, v, order, out)?;
                }
            }
        }
        Val::Enum(i, inner) => {
            let variant = &zoo.variants(id)?[*i];
            if variant.skip.is_some() {
                return None;
            }
            match (inner, variant.ty) {
                (Some(v), Some((_, ty))) => field(ty, v, &variant.name, out)?,
                _ => out.push(kid(builder::Body::Direct(Node {
                    name: variant.name.clone(),
                    acts: Vec::new(),
                    kids: Vec::new(),
                    misuse: None,
                }))),
            }
        }
        _ => return None,
    }
    Some(())
}

/// What writing `v` as `name` by hand takes.
fn node(zoo: &Zoo, id: TyId, v: &Val, name: &Name, order: Order) -> Option<Node> {
    let mut n = Node {
        name: name.clone(),
        acts: Vec::new(),
        kids: Vec::new(),
        misuse: None,
    };
    acts(zoo, id, v, order, &mut n.acts)?;
    kids(zoo, id, v, order, &mut n.kids)?;
    Some(n)
}

/// Whether `id` is a type which maps two prefixes to one URL, not counting the empty one.
fn twice(t: &Ty) -> bool {
    match t {
        Ty::Element(e) => {
            let mut urls: Vec<&str> = e
                .nss
                .iter()
                .filter(|n| !n.0.is_empty())
                .map(|n| &n.1[..])
                .collect();
            let n = urls.len();
            urls.sort_unstable();
            urls.dedup();
            urls.len() != n
        }
        _ => false,
    }
}

fn c18(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let zoo = &ctx.zoo;
    let id = scen::pick_type(src, zoo, &|_| true);
    let val = match zoo.gen_val(src, id, 0, false) {
        Some(v) => v,
        None => return Ok(()),
    };
    let name = root_name(src, zoo, id);
    let name2 = expected_name(zoo, id, &name);
    if zoo.any(id, &twice) {
        case.label("ambiguous");
        return Ok(());
    }
    if zoo.infoset(id, &val, &name2).is_none() {
        case.label("not writable");
        return Ok(());
    }
    let n = match node(zoo, id, &val, &name2, Order::Sorted) {
        Some(n) => n,
        None => return Ok(()),
    };
    let opts = SerOpts {
        indent: src.pct(15),
        no_decl: src.pct(30),
        name: name.as_ref(),
    };
    let text = match (zoo::entry(id).ser_string)(&val, opts) {
        Ok(t) => t,
        // Another property's concern.
        Err(_) => return Ok(()),
    };
    let (e, tags) = match xmltree::parse_tags(&text) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let mut indented = n.elem();
    let mut got = e.clone();
    for e in [&mut indented, &mut got] {
        strip(e);
    }
    if got.canonical() != indented.canonical() {
        return Ok(());
    }
    case.key((id, &text));
    case.sample(|| text.clone());
    let all = n.nodes();
    let urls = |n: &Node| {
        let mut v: Vec<&str> = n
            .acts
            .iter()
            .filter_map(|a| match a {
                Act::Ns(_, u) => Some(*u),
                _ => None,
            })
            .collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let first = urls(all[0]);
    case.nontrivial = first.len() > 1
        || all[1..].iter().any(|n| {
            let u = urls(n);
            u.len() > 1 || (!first.is_empty() && u.iter().any(|u| !first.contains(u)))
        });
    case.label(if all.len() > 1 {
        "has children"
    } else {
        "no children"
    });
    let mut r = justified(&n, &name2, &e, &tags);
    if r.is_err() {
        // The order among one type's mappings isn't specified.
        for order in [Order::Declared, Order::Reversed] {
            if let Some(n) = node(zoo, id, &val, &name2, order) {
                if justified(&n, &name2, &e, &tags).is_ok() {
                    r = Ok(());
                }
            }
        }
    }
    r.map_err(|f| crate::engine::Fail {
        msg: format!(
            "{}\n{}\nvalue {}\nwritten as {}",
            f.msg,
            describe(zoo, id),
            clip(&val),
            xmltree::clip(&text)
        ),
    })
}

fn justified(n: &Node, name: &Name, e: &xmltree::Elem, tags: &[xmltree::Tag]) -> R {
    builder::declarations(Some(n), name, e, &mut tags.iter(), &BTreeMap::new())?;
    let by_hand = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        builder::write_to(n, crate::io::Sink::new(), false, false)
    }));
    let by_hand = match by_hand {
        Ok((Ok(()), sink, _)) => String::from_utf8_lossy(&sink.data).into_owned(),
        _ => fail!("can't be written by hand"),
    };
    let tags2 = match xmltree::parse_tags(&by_hand) {
        Ok(t) => t.1,
        Err(m) => fail!("written by hand, it's ill-formed: {}", m),
    };
    let show = |t: &xmltree::Tag| {
        let (mut d, mut a) = (t.decls.clone(), t.attrs.clone());
        d.sort();
        a.sort();
        (t.prefix.clone(), d, a)
    };
    ensure!(
        tags.iter().map(show).eq(tags2.iter().map(show)),
        "written by hand it's rather\n{}",
        by_hand
    );
    Ok(())
}

/// Removes all text.
fn strip(e: &mut xmltree::Elem) {
    e.kids.retain(|k| matches!(k, xmltree::Node::Elem(_)));
    for k in &mut e.kids {
        if let xmltree::Node::Elem(c) = k {
            strip(c);
        }
    }
}
