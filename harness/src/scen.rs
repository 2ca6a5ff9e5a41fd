//! Documents for the derived types: valid ones, and ones which differ from a valid one somehow.

use crate::model::*;
use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{self, Elem, Node};
use std::collections::HashSet;

/// The names which mean something to a type or any it refers to.
#[derive(Default)]
pub struct Vocab {
    pub attrs: Vec<(Name, TyId)>,
    pub elems: Vec<(Name, TyId)>,
}

pub fn vocab(zoo: &Zoo, id: TyId) -> Vocab {
    let mut v = Vocab::default();
    let mut seen = HashSet::new();
    let mut todo = vec![id];
    while let Some(id) = todo.pop() {
        if !seen.insert(id) {
            continue;
        }
        for f in zoo.fields(id).unwrap_or(&[]) {
            match f.kind {
                Kind::Attr => v.attrs.push((f.name.clone(), f.ty)),
                Kind::Elem => v.elems.push((f.name.clone(), f.ty)),
                _ => {}
            }
        }
        for var in zoo.variants(id).unwrap_or(&[]) {
            if let Some((_, ty)) = var.ty {
                v.elems.push((var.name.clone(), ty));
            } else {
                // Skipped variants too: their names shouldn't mean anything.
                v.elems.push((var.name.clone(), zoo.by_ident("String")));
            }
        }
        todo.extend(zoo.refs(id));
    }
    v
}

const ODD_URLS: &[&str] = &[
    "",
    "http://example.com/a",
    "http://example.com/b",
    "http://example.com/A",
    "http://example.com/a/",
    "HTTP://example.com/a",
    "http://example.com/",
    "urn:x",
    "urn:X",
    "urn:unknown",
    "a",
    "b",
];

/// A name which is easily confused with `n`.
pub fn near_miss(src: &mut Src, n: &Name) -> Name {
    let mut m = n.clone();
    match src.below(9) {
        0 => m.ns = src.pick(ODD_URLS).to_string(),
        1 => {
            if m.ns.is_empty() {
                m.ns = "urn:x".to_owned();
            } else {
                m.ns = String::new();
            }
        }
        2 => m.local.push(*src.pick(&['x', '_', '.', '1', 'a', 'é'])),
        3 => {
            // Change the case of one letter.
            let i = src.below(m.local.chars().count());
            m.local = m
                .local
                .chars()
                .enumerate()
                .map(|(j, c)| {
                    if i != j {
                        c.to_string()
                    } else if c.is_lowercase() {
                        c.to_uppercase().to_string()
                    } else {
                        c.to_lowercase().to_string()
                    }
                })
                .collect();
        }
        4 => {
            let c: Vec<char> = m.local.chars().collect();
            if c.len() > 1 {
                m.local = c[..c.len() - 1].iter().collect();
            } else {
                m.local = "zz".to_owned();
            }
        }
        5 if !m.ns.is_empty() => m.ns.push(*src.pick(&['/', ' ', '#', 'x', '\u{a0}'])),
        6 if !m.ns.is_empty() => {
            m.ns.pop();
        }
        7 if !m.ns.is_empty() => m.ns = m.ns.to_uppercase(),
        8 => m.local = format!("{}{}", src.pick(&["_", "a", "x"]), m.local),
        _ => m.local = format!("{}{}", m.local, m.local),
    }
    m
}

fn junk_text(src: &mut Src) -> String {
    if src.pct(40) {
        src.pick(&[
            " ", "\n  ", "\t", "bad", "stray", "1", "bad idea", "true", "ABC!",
        ])
        .to_string()
    } else {
        gen_string(src)
    }
}

pub fn junk_elem(src: &mut Src, voc: &Vocab, depth: usize) -> Elem {
    let name = if !voc.elems.is_empty() && src.pct(40) {
        src.pick(&voc.elems).0.clone()
    } else {
        Name::new(
            src.pick(ODD_URLS),
            src.pick(&["u", "unknown", "a", "x", "é"]),
        )
    };
    let mut e = Elem::new(name);
    for _ in 0..src.small(3) {
        let n = if !voc.attrs.is_empty() && src.pct(50) {
            src.pick(&voc.attrs).0.clone()
        } else {
            Name::new(src.pick(ODD_URLS), src.pick(&["u", "id", "a"]))
        };
        if e.attr(&n).is_none() {
            e.attrs.push((n, junk_text(src)));
        }
    }
    for _ in 0..src.small(4) {
        if depth < 5 && src.pct(60) {
            e.kids.push(Node::Elem(junk_elem(src, voc, depth + 1)));
        } else {
            let t = junk_text(src);
            e.push_text(&t);
        }
    }
    e
}

/// An element which is valid where its name is, at least as often as not.
fn plausible_elem(src: &mut Src, zoo: &Zoo, voc: &Vocab) -> Option<Elem> {
    if voc.elems.is_empty() {
        return None;
    }
    let (name, ty) = src.pick(&voc.elems).clone();
    let v = zoo.gen_val(src, ty, 4, true)?;
    zoo.infoset(ty, &v, &name)
}

/// Mutates a document once.
pub fn mutate(src: &mut Src, zoo: &Zoo, voc: &Vocab, root: &mut Elem) -> &'static str {
    if src.below(300) == 299 {
        return xmltree::inflate(src, root);
    }
    let size = root.size();
    // Favor the root, where the type under test is.
    let at = if src.pct(35) { 0 } else { src.below(size) };
    let kind = src.below(16);
    let e = root.nth_mut(at);
    let n = e.kids.len();
    match kind {
        0 if n > 0 => {
            let i = src.below(n);
            e.kids.remove(i);
            "drop child"
        }
        1 if n > 0 => {
            let k = e.kids[src.below(n)].clone();
            let j = src.below(n + 1);
            e.kids.insert(n - j, k);
            "duplicate child"
        }
        2 if n > 1 => {
            src.shuffle(&mut e.kids);
            "shuffle"
        }
        3 if !e.attrs.is_empty() => {
            let i = src.below(e.attrs.len());
            e.attrs.remove(i);
            "drop attribute"
        }
        4 => {
            let t = junk_text(src);
            match e.kids.iter_mut().find_map(|k| match k {
                Node::Text(t) => Some(t),
                _ => None,
            }) {
                Some(old) => *old = t,
                None => e.push_text(&t),
            }
            "replace text"
        }
        5 if !e.attrs.is_empty() => {
            let i = src.below(e.attrs.len());
            e.attrs[i].1 = junk_text(src);
            "replace attribute value"
        }
        6 => {
            let j = src.below(n + 1);
            let t = junk_text(src);
            e.kids.insert(j, Node::Text(t));
            "stray text"
        }
        7 => {
            let j = src.below(n + 1);
            e.kids.insert(j, Node::Elem(junk_elem(src, voc, 0)));
            "unknown element"
        }
        8 | 9 => {
            let j = src.below(n + 1);
            if let Some(c) = plausible_elem(src, zoo, voc) {
                e.kids.insert(j, Node::Elem(c));
            }
            "extra element"
        }
        10 if !voc.attrs.is_empty() => {
            let (name, ty) = src.pick(&voc.attrs).clone();
            if e.attr(&name).is_none() {
                let v = match zoo.gen_text(src, ty).and_then(|v| zoo.to_text(ty, &v)) {
                    Some(v) if src.pct(80) => v,
                    _ => junk_text(src),
                };
                e.attrs.push((name, v));
            }
            "extra attribute"
        }
        11 if n > 0 => {
            let i = src.below(n);
            if let Node::Elem(c) = &mut e.kids[i] {
                c.name = near_miss(src, &c.name);
            }
            "near-miss element"
        }
        12 if !e.attrs.is_empty() => {
            let i = src.below(e.attrs.len());
            let m = near_miss(src, &e.attrs[i].0);
            if m.ns != XML_NS && e.attr(&m).is_none() {
                e.attrs[i].0 = m;
            }
            "near-miss attribute"
        }
        13 if !voc.elems.is_empty() && n > 0 => {
            let i = src.below(n);
            if let Node::Elem(c) = &mut e.kids[i] {
                c.name = src.pick(&voc.elems).0.clone();
            }
            "renamed element"
        }
        14 if n > 0 => {
            // Repeat an element many times, interleaved with others.
            let i = src.below(n);
            let k = e.kids[i].clone();
            for _ in 0..1 + src.small(6) {
                let j = src.below(e.kids.len() + 1);
                e.kids.insert(j, k.clone());
            }
            "repeat child"
        }
        _ => {
            // A near miss of something the type wants, in addition to it.
            if !voc.elems.is_empty() {
                let name = src.pick(&voc.elems).0.clone();
                let mut c = junk_elem(src, voc, 4);
                c.name = near_miss(src, &name);
                let j = src.below(n + 1);
                e.kids.insert(j, Node::Elem(c));
            }
            "near-miss extra"
        }
    }
}

/// Makes adjacent text into one node and drops empty text, as reading it will.
pub fn tidy(e: &mut Elem) {
    let kids = std::mem::take(&mut e.kids);
    for k in kids {
        match k {
            Node::Text(t) => e.push_text(&t),
            Node::Elem(mut c) => {
                tidy(&mut c);
                e.kids.push(Node::Elem(c));
            }
        }
    }
}

/// A document for the given type, and how it was changed.
pub fn document(
    src: &mut Src,
    zoo: &Zoo,
    id: TyId,
    mutations: usize,
) -> Option<(Elem, Vec<&'static str>)> {
    let v = zoo.gen_val(src, id, 0, true)?;
    let mut e = zoo.infoset_lenient(id, &v, &Name::new("", "root"));
    let mut how = Vec::new();
    if mutations > 0 {
        let voc = vocab(zoo, id);
        for _ in 0..mutations {
            how.push(mutate(src, zoo, &voc, &mut e));
        }
        tidy(&mut e);
    }
    Some((e, how))
}

/// The nodes on the way to the current element of an error.
pub fn at_path<'a>(e: &'a Elem, path: &[usize]) -> Vec<&'a Elem> {
    let mut out = vec![e];
    for &i in path {
        match &out.last().unwrap().kids[i] {
            Node::Elem(c) => out.push(c),
            Node::Text(_) => unreachable!(),
        }
    }
    out
}

/// Picks a type, favoring ones near the end (which are random) and hand-written ones equally, but
/// rarely ones with hundreds of fields.
pub fn pick_type(src: &mut Src, zoo: &Zoo, ok: &dyn Fn(TyId) -> bool) -> TyId {
    let id = pick_any_type(src, zoo, ok);
    if zoo.refs(id).len() > 60 && !src.pct(20) {
        return pick_any_type(src, zoo, ok);
    }
    id
}

fn pick_any_type(src: &mut Src, zoo: &Zoo, ok: &dyn Fn(TyId) -> bool) -> TyId {
    let random = src.pct(50);
    let ids: Vec<TyId> = (0..zoo.tys.len())
        .filter(|&i| (i >= zoo.hand) == random && ok(i))
        .collect();
    if ids.is_empty() {
        let ids: Vec<TyId> = (0..zoo.tys.len()).filter(|&i| ok(i)).collect();
        return *src.pick(&ids);
    }
    *src.pick(&ids)
}
