//! C17: which declarations the derive macros accept.
//!
//! A case is a crate of generated declarations which `rustc` judges: one made only of what is
//! documented has to compile; of one in which every declaration misuses something, each has to
//! be rejected by an error which points into it.

use crate::engine::{Case, Ctx, Fail, Prop, R};
use crate::source::Src;
use crate::{ensure, fail};
use std::fmt::Write as _;
use std::process::{Command, Stdio};

pub const PROPS: &[Prop] = &[Prop {
    id: "C17",
    level: "exploration",
    rule: "a case is a crate of up to 24 declarations; it is non-trivial if it has at least \
           three, and (where it should compile) at least one with attributes",
    assumptions: &[
        "the verdict is that of the installed stable rustc",
        "a declaration with generics only has to be rejected; two names which expand to the same, \
         empty enums, and attributes without effect (rename on a text field, say) are unspecified",
    ],
    quick: 1300,
    thorough: 12000,
    run,
    fixed: |_| FIXED.len(),
    run_fixed,
}];

// ---------------------------------------------------------------------------------------------
// Declarations

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Std,
    Restriction,
    Union,
    Struct,
    Enum,
}

#[derive(Clone, Debug)]
struct Member {
    attrs: Vec<String>,
    vis: &'static str,
    name: String,
    /// The type of a field, or what follows the name of a variant.
    body: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Named,
    Tuple,
    Unit,
    Enum,
    CUnion,
}

#[derive(Clone, Debug)]
struct Item {
    kind: Kind,
    form: Form,
    name: String,
    generics: &'static str,
    vis: &'static str,
    de: bool,
    ser: bool,
    others: Vec<&'static str>,
    attrs: Vec<String>,
    members: Vec<Member>,
    /// Attributes to be written out as they are, on the type or its first member.
    bare: Option<&'static str>,
    bare_on_member: bool,
}

/// An item others may refer to.
#[derive(Clone)]
struct Known {
    path: String,
    kind: Kind,
    de: bool,
    ser: bool,
}

fn is_text(k: Kind) -> bool {
    matches!(k, Kind::Std | Kind::Restriction | Kind::Union)
}

const PRIMS: &[&str] = &[
    "bool", "u32", "i8", "u8", "i16", "u16", "i32", "i64", "u64", "i128", "u128", "f32", "f64",
];

/// Identifiers of fields, many of which the generated code uses itself.
const FIELDS: &[&str] = &[
    "a",
    "b",
    "foo",
    "foo_",
    "_foo",
    "out",
    "builder",
    "writer",
    "text",
    "value",
    "child",
    "name",
    "e",
    "f",
    "s",
    "p",
    "d",
    "t",
    "r",
    "i",
    "_p",
    "errors",
    "element",
    "_text_buf",
    "_phantom",
    "_default",
    "default",
    "initialized",
    "element_i",
    "expected_i",
    "a_present",
    "a_visitor",
    "foo_visitor",
    "visitor",
    "finalize",
    "drop",
    "new",
    "r#type",
    "r#fn",
    "r#match",
    "r#struct",
    "r#async",
    "r#in",
    "r#mut",
    "r#where",
    "r#final",
    "größe",
    "名前",
    "ñ",
    "CamelCase",
    "UPPER",
    "x1",
    "static_xml",
    "std",
    "core",
    "attribute",
    "flatten",
    "rename",
    "result",
    "ok",
];

const VARIANTS: &[&str] = &[
    "A", "B", "Foo", "Foo_", "Ok", "Err", "Some", "None", "Out", "Visitor", "Error", "String",
    "Result", "Option", "Vec", "Box", "Default", "Drop", "Unknown", "Output", "Item", "Target",
    "Owned", "lower", "f", "text", "name", "r#type", "r#fn", "r#loop", "Größe", "名前", "UPPER",
    "X1", "Skip", "ELEMENTS", "T",
];

const TYPES: &[&str] = &[
    "Foo",
    "Bar",
    "FooVisitor",
    "BarVisitor",
    "Visitor",
    "T",
    "Größe",
    "名前",
    "r#type",
    "r#try",
    "Element",
    "Attribute",
    "Text",
    "Name",
    "ExpandedNameRef",
    "ElementReader",
    "ElementVisitor",
    "VisitorError",
    "Serialize",
    "Deserialize",
    "ParseText",
    "ToText",
    "ElementWriter",
    "lower_case",
    "Foo_",
    "_Foo",
    "Error",
    "X1",
    "ELEMENTS_",
    "Choice",
];

/// Names of the prelude, which a hostile module gives another meaning.
const DECOYS: &[(&str, &str)] = &[
    ("Result", "type Result<T> = ::std::result::Result<T, ()>;"),
    ("Option", "enum Option { A, B }"),
    ("String", "struct String;"),
    ("Vec", "trait Vec {}"),
    ("Box", "struct Box { x: u8 }"),
    ("Ok", "struct Ok;"),
    ("Err", "struct Err(u8);"),
    ("Some", "const Some: u8 = 0;"),
    ("None", "fn None() {}"),
    ("Default", "trait Default {}"),
    ("Drop", "trait Drop { fn drop(&self); }"),
    ("Clone", "trait Clone {}"),
    ("ToString", "trait ToString {}"),
    ("ToOwned", "trait ToOwned {}"),
    ("AsRef", "struct AsRef;"),
    ("FromStr", "trait FromStr {}"),
    ("From", "trait From {}"),
    ("Into", "trait Into {}"),
    ("MaybeUninit", "struct MaybeUninit;"),
    ("PhantomData", "struct PhantomData;"),
    ("BoxedStdError", "struct BoxedStdError;"),
    ("drop", "fn drop() {}"),
    ("std", "mod std {}"),
    ("core", "mod core {}"),
    ("static_xml", "mod static_xml {}"),
    ("stringify", "macro_rules! stringify { () => {}; }"),
    ("concat", "macro_rules! concat { () => {}; }"),
    ("unreachable", "macro_rules! unreachable { () => {}; }"),
    ("vec", "macro_rules! vec { () => {}; }"),
    ("ATTRIBUTES", "const ATTRIBUTES: u8 = 0;"),
    ("ELEMENTS", "static ELEMENTS: u8 = 0;"),
];

const URLS: &[&str] = &[
    "http://example.com/",
    "urn:a",
    "urn:b",
    "u: v",
    "http://a/?x=1&y=<\\\"'>",
    "größe",
];

const PREFIXES: &[&str] = &[
    "ns", "a", "b", "A", "_x", "p1", "x-y", "x.y", "größe", "ml", "Ns",
];

/// The module an item is in.
struct Place {
    hostile: bool,
    in_fn: bool,
    /// Items of this module, and exported ones of earlier ones.
    known: Vec<Known>,
    /// Names of types taken.
    taken: Vec<String>,
}

fn plain(ident: &str) -> &str {
    ident.strip_prefix("r#").unwrap_or(ident)
}

/// Picks an identifier which isn't taken.
fn pick_ident(src: &mut Src, pool: &[&str], taken: &[String]) -> String {
    let start = src.below(pool.len());
    for i in 0..pool.len() {
        let c = pool[(start + i) % pool.len()];
        if !taken.iter().any(|t| plain(t) == plain(c)) {
            return c.to_owned();
        }
    }
    format!("x{}", taken.len() + 100)
}

fn text_ty(src: &mut Src, p: &Place, de: bool, ser: bool) -> String {
    let own: Vec<&Known> = p
        .known
        .iter()
        .filter(|k| is_text(k.kind) && (k.de || !de) && (k.ser || !ser))
        .collect();
    match src.weighted(&[3, 4, if own.is_empty() { 0 } else { 5 }, !de as usize]) {
        0 => match p.hostile {
            true => "::std::string::String".to_owned(),
            false => src
                .pick(&["String", "std::string::String", "::std::string::String"])
                .to_string(),
        },
        1 => src.pick(PRIMS).to_string(),
        2 => src.pick(&own).path.clone(),
        _ => "&'static str".to_owned(),
    }
}

fn any_ty(src: &mut Src, p: &Place, de: bool, ser: bool) -> String {
    let own: Vec<&Known> = p
        .known
        .iter()
        .filter(|k| !is_text(k.kind) && (k.de || !de) && (k.ser || !ser))
        .collect();
    if !own.is_empty() && src.pct(50) {
        return src.pick(&own).path.clone();
    }
    text_ty(src, p, de, ser)
}

fn option(p: &Place, src: &mut Src, t: &str) -> String {
    match p.hostile {
        true => format!("::core::option::Option<{}>", t),
        false => match src.below(2) {
            0 => format!("Option<{}>", t),
            _ => format!("std::option::Option<{}>", t),
        },
    }
}

fn vec(p: &Place, src: &mut Src, t: &str) -> String {
    match p.hostile {
        true => format!("::std::vec::Vec<{}>", t),
        false => match src.below(2) {
            0 => format!("Vec<{}>", t),
            _ => format!("::std::vec::Vec<{}>", t),
        },
    }
}

/// The type of an element field or of a variant's field.
fn element_ty(src: &mut Src, p: &Place, de: bool, ser: bool) -> String {
    let t = any_ty(src, p, de, ser);
    match src.below(4) {
        0 | 1 => t,
        2 => option(p, src, &t),
        _ => vec(p, src, &t),
    }
}

const VIS: &[&str] = &[
    "",
    "pub ",
    "pub(crate) ",
    "pub(super) ",
    "pub(in crate) ",
    "pub(self) ",
];

fn lit(src: &mut Src, s: &str) -> String {
    // Values here are already escaped.
    if !s.contains('\\') && src.pct(15) {
        format!("r#\"{}\"#", s)
    } else {
        format!("\"{}\"", s)
    }
}

fn nv(src: &mut Src, k: &str, v: &str) -> String {
    let l = lit(src, v);
    format!("{} = {}", k, l)
}

/// Adds namespace mappings, returning the prefixes mapped.
fn gen_namespaces(src: &mut Src, attrs: &mut Vec<String>) -> Vec<String> {
    let mut prefixes: Vec<String> = Vec::new();
    for _ in 0..src.small(4) {
        let pre = src.pick(PREFIXES).to_string();
        if prefixes.contains(&pre) {
            continue;
        }
        let url = *src.pick(URLS);
        let pad = *src.pick(&["", "", " "]);
        let v = format!("{}{}: {}{}", pad, pre, pad, url);
        attrs.push(nv(src, "namespace", &v));
        prefixes.push(pre);
    }
    if src.pct(25) {
        let url = *src.pick(URLS);
        if src.pct(60) || url.contains(": ") {
            attrs.push(nv(src, "default_namespace", url));
        } else {
            attrs.push(nv(src, "namespace", url));
        }
        prefixes.push(String::new());
    }
    if src.pct(8) {
        attrs.push(nv(
            src,
            "namespace",
            "xml: http://www.w3.org/XML/1998/namespace",
        ));
    }
    prefixes.push("xml".to_owned());
    prefixes
}

/// Perhaps a prefix and a new name. Names never collide: a new one is unlike any identifier.
fn gen_name(src: &mut Src, prefixes: &[String], n: usize, attrs: &mut Vec<String>) {
    if src.pct(30) {
        let stem = *src.pick(&["n", "Some.name-", "ü", "type", "_"]);
        attrs.push(nv(src, "rename", &format!("{}-{}", stem, n)));
    }
    if src.pct(35) {
        let p = src.pick(prefixes).clone();
        attrs.push(nv(src, "prefix", &p));
    }
}

fn gen_item(src: &mut Src, p: &Place) -> Item {
    let kind = *src.pick(&[
        Kind::Struct,
        Kind::Enum,
        Kind::Struct,
        Kind::Restriction,
        Kind::Union,
        Kind::Std,
        Kind::Struct,
        Kind::Enum,
    ]);
    let (de, ser) = *src.pick(&[(true, true), (true, true), (true, false), (false, true)]);
    let mut types: Vec<&str> = TYPES.to_vec();
    if p.hostile {
        types.extend(DECOYS.iter().map(|d| d.0).filter(|d| {
            d.starts_with(|c: char| c.is_ascii_uppercase()) && d.chars().any(|c| c.is_lowercase())
        }));
    }
    let name = pick_ident(src, &types, &p.taken);
    let mut it = Item {
        kind,
        form: Form::Enum,
        name,
        generics: "",
        vis: if p.in_fn { "" } else { *src.pick(VIS) },
        de,
        ser,
        others: Vec::new(),
        attrs: Vec::new(),
        members: Vec::new(),
        bare: None,
        bare_on_member: false,
    };
    if src.pct(20) {
        it.others.push(*src.pick(&["doc", "allow", "repr"]));
    }
    let mut idents: Vec<String> = Vec::new();
    if is_text(kind) {
        let mode = match kind {
            Kind::Std => "std",
            Kind::Restriction => "restriction",
            _ => "union",
        };
        it.attrs.push(nv(src, "mode", mode));
        if src.pct(40) {
            let w = *src.pick(&["preserve", "replace", "collapse"]);
            it.attrs.push(nv(src, "whitespace", w));
        }
    }
    let n = src.small(7);
    match kind {
        Kind::Std => {
            it.form = *src.pick(&[Form::Tuple, Form::Unit, Form::Named, Form::Enum]);
            match it.form {
                Form::Unit => {}
                Form::Enum => it.members.push(Member {
                    attrs: vec![],
                    vis: "",
                    name: "A".to_owned(),
                    body: (*src.pick(&["", "(u8)", "{ a: u8, b: u8 }", "(u8, u8)"])).to_owned(),
                }),
                _ => it.members.push(Member {
                    attrs: vec![],
                    vis: "",
                    name: "a".to_owned(),
                    body: "u8".to_owned(),
                }),
            }
        }
        Kind::Restriction => {
            let unknown = if src.pct(40) { src.below(n + 1) } else { n + 1 };
            for i in 0..n + 1 {
                let name = pick_ident(src, VARIANTS, &idents);
                idents.push(name.clone());
                let mut m = Member {
                    attrs: vec![],
                    vis: "",
                    name,
                    body: String::new(),
                };
                if i == unknown {
                    m.attrs.push("unknown".to_owned());
                    m.body = if p.hostile {
                        "(::std::string::String)".to_owned()
                    } else {
                        "(String)".to_owned()
                    };
                } else if src.pct(40) {
                    let t = *src.pick(&["", " ", "small", "a b", "größe", "\\\"<&>", "A\\n"]);
                    m.attrs.push(nv(src, "rename", &format!("{}{}", t, i)));
                }
                it.members.push(m);
            }
        }
        Kind::Union => {
            for _ in 0..n + 1 {
                let name = pick_ident(src, VARIANTS, &idents);
                idents.push(name.clone());
                let t = text_ty(src, p, de, ser);
                it.members.push(Member {
                    attrs: vec![],
                    vis: "",
                    name,
                    body: format!("({})", t),
                });
            }
        }
        Kind::Struct => {
            it.form = Form::Named;
            let prefixes = gen_namespaces(src, &mut it.attrs);
            gen_name(src, &prefixes, 0, &mut it.attrs);
            let mut text = false;
            for i in 0..n {
                let name = pick_ident(src, FIELDS, &idents);
                idents.push(name.clone());
                let mut m = Member {
                    attrs: vec![],
                    vis: *src.pick(&["", "pub ", "pub(crate) "]),
                    name,
                    body: String::new(),
                };
                let flat: Vec<&Known> = p
                    .known
                    .iter()
                    .filter(|k| !is_text(k.kind) && (k.de || !de) && (k.ser || !ser))
                    .collect();
                match src.weighted(&[5, 4, if flat.is_empty() { 0 } else { 4 }, !text as usize]) {
                    0 => {
                        gen_name(src, &prefixes, i, &mut m.attrs);
                        m.body = match src.pct(12) && !p.in_fn {
                            // A type which contains itself.
                            true => {
                                let t = it.name.clone();
                                vec(p, src, &t)
                            }
                            false => element_ty(src, p, de, ser),
                        };
                        if defaultable(&m.body) && src.pct(25) {
                            m.attrs.push("default".to_owned());
                        }
                    }
                    1 => {
                        gen_name(src, &prefixes, i, &mut m.attrs);
                        m.attrs.push("attribute".to_owned());
                        m.body = text_ty(src, p, de, ser);
                        if src.pct(40) {
                            m.body = option(p, src, &m.body.clone());
                        }
                        if defaultable(&m.body) && src.pct(25) {
                            m.attrs.push("default".to_owned());
                        }
                    }
                    2 => {
                        m.attrs.push("flatten".to_owned());
                        m.body = src.pick(&flat).path.clone();
                    }
                    _ => {
                        text = true;
                        m.attrs.push("text".to_owned());
                        m.body = text_ty(src, p, de, ser);
                    }
                }
                it.members.push(m);
            }
        }
        Kind::Enum => {
            let prefixes = gen_namespaces(src, &mut it.attrs);
            gen_name(src, &prefixes, 0, &mut it.attrs);
            for i in 0..n + 1 {
                let name = pick_ident(src, VARIANTS, &idents);
                idents.push(name.clone());
                let mut m = Member {
                    attrs: vec![],
                    vis: "",
                    name,
                    body: String::new(),
                };
                gen_name(src, &prefixes, i, &mut m.attrs);
                if src.pct(65) {
                    m.body = format!("({})", element_ty(src, p, de, ser));
                }
                // Leave at least one.
                if i > 0 && src.pct(15) {
                    m.attrs.push("skip".to_owned());
                    if src.pct(30) {
                        m.body = (*src.pick(&["(u8, u8)", "{ x: u8 }", "(::std::net::IpAddr)"]))
                            .to_owned();
                    }
                }
                it.members.push(m);
            }
        }
    }
    it
}

/// Whether the type has a `Default` for certain.
fn defaultable(t: &str) -> bool {
    PRIMS.contains(&t)
        || matches!(t, "std::string::String" | "::std::string::String")
        || t.contains("ption<")
        || t.contains("Vec<")
        || t.starts_with('&')
}

/// Writes the attributes in any order, split over any number of `#[static_xml(...)]`, among
/// others.
fn write_attrs(src: &mut Src, mut attrs: Vec<String>, indent: &str, reorder: bool, o: &mut String) {
    if reorder {
        src.shuffle(&mut attrs);
    }
    if src.pct(15) {
        let other = *src.pick(&["/// Documented.", "#[allow(unused)]", "#[doc(hidden)]"]);
        let _ = writeln!(o, "{}{}", indent, other);
    }
    let mut i = 0;
    while i < attrs.len() {
        let n = 1 + src.below(attrs.len() - i);
        let mut list = attrs[i..i + n].join(", ");
        if src.pct(15) {
            list.push(',');
        }
        i += n;
        let _ = match src.weighted(&[12, 1, 1]) {
            0 => writeln!(o, "{}#[static_xml({})]", indent, list),
            1 => writeln!(o, "{}#[cfg_attr(all(), static_xml({}))]", indent, list),
            _ => writeln!(
                o,
                "{}#[static_xml(\n    {}\n)]\n#[allow(unused)]",
                indent, list
            ),
        };
    }
}

fn render_item(src: &mut Src, it: &Item, p: &Place, o: &mut String) {
    let (de, ser) = match is_text(it.kind) {
        true => ("ParseText", "ToText"),
        false => ("Deserialize", "Serialize"),
    };
    let mut derives: Vec<String> = Vec::new();
    let q = if p.hostile { "::" } else { "" };
    if it.de {
        derives.push(format!("{}static_xml_derive::{}", q, de));
    }
    if it.ser {
        derives.push(format!("{}static_xml_derive::{}", q, ser));
    }
    src.shuffle(&mut derives);
    let (mut before, after): (Vec<String>, Vec<String>) = if src.pct(10) {
        // Attributes may come before the derive which they belong to, though rustc frowns on it.
        (vec![], derives)
    } else {
        (derives, vec![])
    };
    if src.pct(20) && before.len() == 2 {
        let d = before.pop().unwrap();
        let _ = writeln!(o, "#[derive({})]", d);
    }
    if !before.is_empty() {
        let _ = writeln!(o, "#[derive({})]", before.join(", "));
    }
    for other in &it.others {
        let _ = match *other {
            "doc" => writeln!(o, "/// Documented."),
            "repr" if it.form == Form::Named => writeln!(o, "#[repr(C)]"),
            _ => writeln!(o, "#[allow(dead_code)]"),
        };
    }
    if let (Some(b), false) = (it.bare, it.bare_on_member) {
        let _ = writeln!(o, "{}", b);
    }
    let plain_order = !after.is_empty();
    if plain_order {
        let _ = writeln!(o, "#[derive({})]", after.join(", "));
    }
    write_attrs(src, it.attrs.clone(), "", true, o);
    let word = match it.form {
        Form::Enum => "enum",
        Form::CUnion => "union",
        _ => "struct",
    };
    let _ = write!(o, "{}{} {}{}", it.vis, word, it.name, it.generics);
    match it.form {
        Form::Unit => {
            let _ = writeln!(o, ";");
            return;
        }
        Form::Tuple => {
            let _ = writeln!(o, "(");
        }
        _ => {
            let _ = writeln!(o, " {{");
        }
    }
    for (i, m) in it.members.iter().enumerate() {
        if let (Some(b), true, 0) = (it.bare, it.bare_on_member, i) {
            let _ = writeln!(o, "    {}", b);
        }
        write_attrs(src, m.attrs.clone(), "    ", true, o);
        let _ = match it.form {
            Form::Enum => writeln!(o, "    {}{},", m.name, m.body),
            Form::Tuple => writeln!(o, "    {}{},", m.vis, m.body),
            _ => writeln!(o, "    {}{}: {},", m.vis, m.name, m.body),
        };
    }
    if it.members.is_empty() && it.bare_on_member {
        // Nothing to put it on.
        let _ = writeln!(
            o,
            "    {}",
            if it.form == Form::Enum { "Z" } else { "z: u8" }
        );
    }
    let _ = writeln!(o, "{}", if it.form == Form::Tuple { ");" } else { "}" });
}

/// Writes the item by way of a macro which is given its names and types.
fn render_macro(src: &mut Src, it: &Item, p: &Place, n: usize, o: &mut String) {
    let mut params = vec!["$name:ident".to_owned()];
    let mut args = vec![it.name.clone()];
    let mut inner = it.clone();
    inner.name = "$name".to_owned();
    for (i, m) in inner.members.iter_mut().enumerate() {
        if it.form != Form::Tuple {
            params.push(format!("$n{}:ident", i));
            args.push(std::mem::replace(&mut m.name, format!("$n{}", i)));
        }
        let (open, ty, close) = match m.body.strip_prefix('(') {
            Some(b) => ("(", b.trim_end_matches(')'), ")"),
            None => ("", m.body.as_str(), ""),
        };
        if ty.is_empty() || ty.contains(['{', ',']) || src.pct(30) {
            continue;
        }
        params.push(format!("$t{}:ty", i));
        args.push(ty.to_owned());
        m.body = format!("{}$t{}{}", open, i, close);
    }
    let _ = writeln!(o, "macro_rules! mk{} {{ ({}) => {{", n, params.join(", "));
    render_item(src, &inner, p, o);
    let _ = writeln!(o, "}} }} mk{}!({});", n, args.join(", "));
}

/// What a type with `mode = "std"` needs besides.
fn std_impls(name: &str) -> String {
    format!(
        "impl ::std::str::FromStr for {0} {{ type Err = ::std::num::ParseIntError; \
         fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> {{ loop {{}} }} }} \
         impl ::std::fmt::Display for {0} {{ \
         fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ loop {{}} }} }}",
        name
    )
}

fn assertions(it: &Item) -> String {
    let mut bounds: Vec<&str> = Vec::new();
    if it.de {
        bounds.push("::static_xml::de::Deserialize");
        bounds.push(if is_text(it.kind) {
            "::static_xml::de::ParseText"
        } else {
            "for<'a> ::static_xml::de::RawDeserialize<'a>"
        });
    }
    if it.ser {
        bounds.push("::static_xml::ser::Serialize");
        bounds.push(if is_text(it.kind) {
            "::static_xml::ser::ToText"
        } else {
            "::static_xml::ser::SerializeRoot"
        });
    }
    format!(
        "const _: fn() = || {{ fn check<X: {}>() {{}} check::<{}>(); }};",
        bounds.join(" + "),
        it.name
    )
}

// ---------------------------------------------------------------------------------------------
// Misuse

type Misuse = (&'static str, fn(&mut Src, &mut Item) -> bool);

fn push_member(src: &mut Src, it: &mut Item, attr: &str) -> bool {
    if it.members.is_empty() {
        return false;
    }
    let i = src.below(it.members.len());
    it.members[i].attrs.push(attr.to_owned());
    true
}

/// Adds a plain element field to a struct or a unit variant to an enum.
fn add_member(it: &mut Item, name: &str, body: &str, attrs: &[&str]) {
    it.members.push(Member {
        attrs: attrs.iter().map(|a| a.to_string()).collect(),
        vis: "",
        name: name.to_owned(),
        body: body.to_owned(),
    });
}

fn has(attrs: &[String], key: &str) -> bool {
    attrs
        .iter()
        .any(|a| a.split(['=', '(', ' ']).next() == Some(key))
}

const MISUSES: &[Misuse] = &[
    ("unknown attribute of a type", |src, it| {
        let a = *src.pick(&[
            "bogus",
            "bogus = \"x\"",
            "bogus(x)",
            "renames = \"x\"",
            "rename",
            "rename(\"x\")",
            "static_xml::rename = \"x\"",
            "namespace",
            "prefix(\"a\")",
            "\"literal\"",
            "5",
            "attribute",
            "default",
            "flatten",
            "text",
            "skip",
            "unknown",
        ]);
        it.attrs.push(a.to_owned());
        true
    }),
    ("unknown attribute of a member", |src, it| {
        if it.form == Form::Unit {
            return false;
        }
        let a = *src.pick(&[
            "bogus",
            "bogus = \"x\"",
            "bogus(x)",
            "Rename = \"x\"",
            "rename",
            "rename(\"x\")",
            "x::rename = \"y\"",
            "prefix",
            "\"literal\"",
            "true",
            "namespace = \"n: u\"",
            "default_namespace = \"u\"",
            "whitespace = \"collapse\"",
            "mode = \"std\"",
            "attribute = \"x\"",
            "skip = \"x\"",
            "default = \"x\"",
            "text()",
        ]);
        push_member(src, it, a)
    }),
    ("attribute for another kind of member", |src, it| {
        let a: &[&str] = match it.kind {
            Kind::Struct => &["skip", "unknown"],
            Kind::Enum => &["attribute", "default", "flatten", "text", "unknown"],
            Kind::Restriction => &["attribute", "default", "skip", "prefix = \"xml\""],
            Kind::Union => &["rename = \"x\"", "unknown", "skip", "prefix = \"xml\""],
            Kind::Std => &["rename = \"x\"", "unknown", "attribute"],
        };
        let a = *src.pick(a);
        push_member(src, it, a)
    }),
    ("attribute for another kind of type", |src, it| {
        let a: &[&str] = match is_text(it.kind) {
            true => &[
                "rename = \"x\"",
                "prefix = \"xml\"",
                "namespace = \"n: u\"",
                "default_namespace = \"u\"",
            ],
            false => &["mode = \"std\"", "whitespace = \"collapse\""],
        };
        it.attrs.push(src.pick(a).to_string());
        true
    }),
    ("attribute inside a variant", |src, it| {
        let a = *src.pick(&[
            "#[static_xml(rename = \"x\")] ",
            "#[static_xml(bogus)] ",
            "#[static_xml(attribute)] ",
        ]);
        if it.form != Form::Enum {
            return false;
        }
        for m in it.members.iter_mut() {
            if m.body.starts_with(['(', '{']) {
                m.body.insert_str(1, a);
                return true;
            }
        }
        false
    }),
    ("attribute without a list", |src, it| {
        it.bare = Some(*src.pick(&[
            "#[static_xml]",
            "#[static_xml = \"x\"]",
            "#[static_xml[rename = ]]",
            "#[static_xml(rename = )]",
            "#[static_xml(a b)]",
            "#[static_xml(rename: \"x\")]",
        ]));
        // std impls have nowhere to put it.
        it.bare_on_member = it.form != Form::Unit && !it.members.is_empty() && src.pct(50);
        true
    }),
    ("value which isn't a string", |src, it| {
        let v = *src.pick(&["5", "true", "'x'", "b\"x\"", "1.5"]);
        let key = match it.kind {
            Kind::Struct | Kind::Enum => {
                let k = *src.pick(&["rename", "namespace", "default_namespace", "prefix"]);
                if has(&it.attrs, k) && k != "namespace" {
                    return false;
                }
                k
            }
            _ if has(&it.attrs, "whitespace") => return false,
            _ => "whitespace",
        };
        it.attrs.push(format!("{} = {}", key, v));
        true
    }),
    ("member's value which isn't a string", |src, it| {
        let v = *src.pick(&["5", "true", "'x'", "b\"x\""]);
        let k = match it.kind {
            Kind::Struct | Kind::Enum => *src.pick(&["rename", "prefix"]),
            Kind::Restriction => "rename",
            _ => return false,
        };
        let a = format!("{} = {}", k, v);
        push_member(src, it, &a)
    }),
    ("undeclared prefix of the type", |src, it| {
        if is_text(it.kind) || has(&it.attrs, "prefix") {
            return false;
        }
        let v = *src.pick(&[
            "zz",
            "Zz",
            "zz:",
            "n s",
            "XML",
            "xmlns",
            "http://example.com/",
        ]);
        it.attrs.push(format!("prefix = \"{}\"", v));
        true
    }),
    ("undeclared prefix of a member", |src, it| {
        if is_text(it.kind) {
            return false;
        }
        let v = *src.pick(&["zz", "Zz", "zz:", "n s", "XML", "xmlns"]);
        let a = format!("prefix = \"{}\"", v);
        match it.kind {
            Kind::Struct => add_member(it, "zz", "u8", &[&a]),
            _ => add_member(it, "Zz", "(u8)", &[&a]),
        }
        true
    }),
    ("prefix mapped twice", |src, it| {
        if is_text(it.kind) {
            return false;
        }
        let second = *src.pick(&["zz: urn:b", "zz: urn:a", " zz : urn:c"]);
        it.attrs.push("namespace = \"zz: urn:a\"".to_owned());
        it.attrs.push(format!("namespace = \"{}\"", second));
        true
    }),
    ("default namespace mapped twice", |src, it| {
        if is_text(it.kind) {
            return false;
        }
        let a = *src.pick(&["default_namespace", "namespace"]);
        let b = *src.pick(&["default_namespace", "namespace"]);
        it.attrs.push(format!("{} = \"urn:a\"", a));
        it.attrs.push(format!("{} = \"urn:b\"", b));
        true
    }),
    ("reserved or malformed mapping", |src, it| {
        if is_text(it.kind) {
            return false;
        }
        let v = *src.pick(&[
            "xml: urn:a",
            "xmlns: urn:a",
            "xmlns: http://www.w3.org/2000/xmlns/",
            "xmlfoo: urn:a",
            " xmlfoo: urn:a",
            "zz: http://www.w3.org/XML/1998/namespace",
            "zz: http://www.w3.org/2000/xmlns/",
            "http://www.w3.org/XML/1998/namespace",
            "zz: ",
            "zz:  ",
            "z z: urn:a",
            "z:z: urn:a",
            "1z: urn:a",
            "-z: urn:a",
            ".z: urn:a",
            "z&: urn:a",
            "z\\\": urn:a",
            "z<: urn:a",
        ]);
        it.attrs.push(format!("namespace = \"{}\"", v));
        true
    }),
    ("reserved default namespace", |src, it| {
        if is_text(it.kind) {
            return false;
        }
        let v = *src.pick(&[
            "http://www.w3.org/XML/1998/namespace",
            "http://www.w3.org/2000/xmlns/",
        ]);
        it.attrs.retain(|a| !a.starts_with("default_namespace"));
        it.attrs.push(format!("default_namespace = \"{}\"", v));
        true
    }),
    ("type's value given twice", |src, it| {
        let (k, a, b) = match is_text(it.kind) {
            true => *src.pick(&[
                ("whitespace", "collapse", "replace"),
                ("whitespace", "preserve", "preserve"),
                ("mode", "restriction", "union"),
                ("mode", "std", "std"),
            ]),
            false => *src.pick(&[
                ("rename", "x", "y"),
                ("rename", "x", "x"),
                ("prefix", "xml", "xml"),
            ]),
        };
        if k == "mode" {
            it.attrs.push(format!("{} = \"{}\"", k, a));
        } else {
            it.attrs.push(format!("{} = \"{}\"", k, a));
            it.attrs.push(format!("{} = \"{}\"", k, b));
        }
        true
    }),
    ("member's value given twice", |src, it| {
        let (k, a, b) = match it.kind {
            Kind::Struct | Kind::Enum => *src.pick(&[
                ("rename", "x", "y"),
                ("rename", "x", "x"),
                ("prefix", "xml", "xml"),
                ("prefix", "", "xml"),
            ]),
            Kind::Restriction => ("rename", "x", "y"),
            _ => return false,
        };
        let one = format!("{} = \"{}\"", k, a);
        let two = format!("{} = \"{}\"", k, b);
        let skip = if it.kind == Kind::Enum && src.pct(0) {
            "skip"
        } else {
            ""
        };
        let attrs: Vec<&str> = [skip, &one, &two]
            .into_iter()
            .filter(|s| !s.is_empty())
            .collect();
        match it.kind {
            Kind::Struct => add_member(it, "zz", "u8", &attrs),
            _ => add_member(it, "Zz", "", &attrs),
        }
        true
    }),
    ("two text fields", |src, it| {
        if it.kind != Kind::Struct {
            return false;
        }
        add_member(it, "zz", "u8", &["text"]);
        let body = *src.pick(&["u8", "::std::string::String"]);
        add_member(it, "zz2", body, &["text"]);
        true
    }),
    ("conflicting attributes of a field", |src, it| {
        if it.kind != Kind::Struct {
            return false;
        }
        let a: &[&str] = *src.pick(&[
            &["attribute", "text"] as &[&str],
            &["attribute", "flatten"],
            &["text", "flatten"],
            &["flatten", "default"],
            &["attribute", "text", "flatten"],
            &["attribute", "flatten", "default"],
        ]);
        add_member(it, "zz", "::std::string::String", a);
        true
    }),
    ("conflicting attributes of a variant", |src, it| {
        match it.kind {
            Kind::Restriction => {
                for m in it.members.iter_mut() {
                    m.attrs.retain(|a| a != "unknown");
                    m.body.clear();
                }
                let i = src.below(it.members.len());
                it.members[i].body = "(::std::string::String)".to_owned();
                it.members[i].attrs = vec!["unknown".to_owned(), "rename = \"x\"".to_owned()];
                true
            }
            _ => false,
        }
    }),
    ("two unknown variants", |_, it| {
        if it.kind != Kind::Restriction {
            return false;
        }
        add_member(it, "Zz", "(::std::string::String)", &["unknown"]);
        add_member(it, "Zz2", "(::std::string::String)", &["unknown"]);
        true
    }),
    ("variant of an unsupported shape", |src, it| {
        let (body, attr) = match it.kind {
            Kind::Enum => (
                *src.pick(&["(u8, u8)", "{ a: u8 }", "()", "{}", "{ a: u8, b: u8 }"]),
                "",
            ),
            Kind::Restriction => *src.pick(&[
                ("(u8)", ""),
                ("{ a: u8 }", ""),
                ("(::std::string::String)", ""),
                ("()", ""),
                ("", "unknown"),
                ("(::std::string::String, u8)", "unknown"),
                ("{ a: ::std::string::String }", "unknown"),
            ]),
            Kind::Union => (*src.pick(&["", "(u8, u8)", "{ a: u8 }", "()", "{}"]), ""),
            _ => return false,
        };
        let attrs: Vec<&str> = if attr.is_empty() { vec![] } else { vec![attr] };
        if !attrs.is_empty() {
            for m in it.members.iter_mut().filter(|m| has(&m.attrs, "unknown")) {
                m.attrs.clear();
                m.body.clear();
            }
        }
        let at = src.below(it.members.len() + 1);
        add_member(it, "Zz", body, &attrs);
        let m = it.members.pop().unwrap();
        it.members.insert(at, m);
        true
    }),
    ("type of an unsupported shape", |src, it| match it.kind {
        Kind::Struct => {
            it.form = *src.pick(&[Form::Tuple, Form::Unit, Form::CUnion]);
            it.others.clear();
            if it.form == Form::Unit {
                it.members.clear();
            }
            for m in it.members.iter_mut() {
                m.attrs.clear();
            }
            if it.form == Form::CUnion {
                it.members.clear();
                add_member(it, "a", "u8", &[]);
                add_member(it, "b", "u16", &[]);
            }
            true
        }
        Kind::Restriction | Kind::Union => {
            it.form = *src.pick(&[Form::Tuple, Form::Unit, Form::Named, Form::CUnion]);
            it.others.clear();
            it.members.clear();
            if it.form != Form::Unit {
                add_member(it, "a", "u8", &[]);
            }
            true
        }
        _ => false,
    }),
    ("text type without a mode", |_, it| {
        if !is_text(it.kind) {
            return false;
        }
        it.attrs.retain(|a| !a.starts_with("mode"));
        true
    }),
    ("unknown mode", |src, it| {
        if !is_text(it.kind) {
            return false;
        }
        it.attrs.retain(|a| !a.starts_with("mode"));
        let v = *src.pick(&["Std", "", "list", "enum", " union", "std "]);
        it.attrs.push(format!("mode = \"{}\"", v));
        true
    }),
    ("unknown whitespace", |src, it| {
        if !is_text(it.kind) {
            return false;
        }
        it.attrs.retain(|a| !a.starts_with("whitespace"));
        let v = *src.pick(&["Collapse", "", "trim", "none", " replace"]);
        it.attrs.push(format!("whitespace = \"{}\"", v));
        true
    }),
    ("generic type", |src, it| {
        if it.kind != Kind::Struct {
            return false;
        }
        let (g, t) = *src.pick(&[
            ("<X>", "X"),
            ("<'x>", "&'x str"),
            ("<const N: usize>", "[u8; N]"),
        ]);
        it.generics = g;
        add_member(it, "zz", t, &["attribute"]);
        true
    }),
    ("field whose type can't be one", |src, it| {
        if it.kind != Kind::Struct {
            return false;
        }
        let (t, a): (&str, &[&str]) = *src.pick(&[
            ("::std::vec::Vec<u8>", &["attribute"] as &[&str]),
            ("::std::option::Option<u8>", &["text"]),
            ("::std::net::IpAddr", &[]),
            ("::std::string::String", &["flatten"]),
            ("Missing", &[]),
        ]);
        // Serialize alone would do for a flattened string.
        if a == ["flatten"] && !it.de {
            return false;
        }
        add_member(it, "zz", t, a);
        if a == ["text"] {
            for m in it.members.iter_mut().filter(|m| m.name != "zz") {
                m.attrs.retain(|a| a != "text");
            }
        }
        true
    }),
    ("default without Default", |_, it| {
        if it.kind != Kind::Struct || !it.de {
            return false;
        }
        it.others.clear();
        add_member(it, "zz", "NoDefault", &["default"]);
        true
    }),
];

// ---------------------------------------------------------------------------------------------
// Crates

struct Program {
    text: String,
    /// The lines of each item, and what's wrong with it.
    items: Vec<(usize, usize, &'static str)>,
    attrs: usize,
}

const HEADER: &str = "#![allow(warnings)]\n";

fn lines(s: &str) -> usize {
    s.matches('\n').count()
}

/// A crate which should compile.
fn gen_good(src: &mut Src) -> Program {
    let mut o = HEADER.to_owned();
    let mut items = Vec::new();
    let mut attrs = 0;
    let mut exported: Vec<Known> = Vec::new();
    let mut module = 0;
    while items.len() < 24 && src.pct(92) {
        let mut place = Place {
            hostile: src.pct(30),
            in_fn: src.pct(15),
            known: exported.clone(),
            taken: Vec::new(),
        };
        let path = format!("m{}", module);
        module += 1;
        let mut body = String::new();
        let mut tail = String::new();
        let base = lines(&o) + 1 + place.in_fn as usize;
        let mut made: Vec<Item> = Vec::new();
        while made.is_empty() || made.len() < 6 && src.pct(65) {
            let it = gen_item(src, &place);
            place.taken.push(it.name.clone());
            let first = base + lines(&body) + 1;
            if src.pct(12) {
                render_macro(src, &it, &place, items.len(), &mut body);
            } else {
                render_item(src, &it, &place, &mut body);
            }
            items.push((first, base + lines(&body), ""));
            attrs += it.attrs.len() + it.members.iter().map(|m| m.attrs.len()).sum::<usize>();
            if it.kind == Kind::Std {
                let _ = writeln!(tail, "{}", std_impls(&it.name));
            }
            let _ = writeln!(tail, "{}", assertions(&it));
            let known = Known {
                path: it.name.clone(),
                kind: it.kind,
                de: it.de,
                ser: it.ser,
            };
            if !place.in_fn && !matches!(it.vis, "" | "pub(self) ") {
                let how = if src.pct(50) { "crate" } else { "super" };
                // All modules are children of the root.
                exported.push(Known {
                    path: format!("{}::{}::{}", how, path, it.name),
                    ..known.clone()
                });
            }
            place.known.push(known);
            made.push(it);
        }
        if place.hostile {
            // Macros are in scope only after their definition. The items' places were reckoned
            // without these lines, which thus go at the end of the line which opens the module.
            let mut decoys = String::new();
            for (name, d) in DECOYS {
                if !place.taken.iter().any(|t| t == name) && src.pct(70) {
                    decoys.push(' ');
                    decoys.push_str(d);
                }
            }
            let _ = write!(o, "mod {} {{", path);
            let _ = if place.in_fn {
                writeln!(o, "\nfn scope() {{{}", decoys)
            } else {
                writeln!(o, "{}", decoys)
            };
        } else {
            let _ = writeln!(o, "mod {} {{", path);
            if place.in_fn {
                let _ = writeln!(o, "fn scope() {{");
            }
        }
        o.push_str(&body);
        o.push_str(&tail);
        o.push_str(if place.in_fn { "}}\n" } else { "}\n" });
    }
    Program {
        text: o,
        items,
        attrs,
    }
}

/// A crate in which every item misuses something.
fn gen_bad(src: &mut Src) -> (Vec<(String, &'static str)>, usize) {
    let mut out: Vec<(String, &'static str)> = Vec::new();
    let mut attrs = 0;
    while out.len() < 24 && src.pct(94) {
        let mut place = Place {
            hostile: false,
            in_fn: false,
            known: Vec::new(),
            taken: vec!["NoDefault".to_owned()],
        };
        // A few to refer to, out of harm's way.
        for (path, kind) in [("crate::E", Kind::Struct), ("crate::T", Kind::Union)] {
            place.known.push(Known {
                path: path.to_owned(),
                kind,
                de: true,
                ser: true,
            });
        }
        let start = src.below(MISUSES.len());
        let mut it = gen_item(src, &place);
        let mut label = None;
        for i in 0..MISUSES.len() {
            let (l, f) = MISUSES[(start + i) % MISUSES.len()];
            if f(src, &mut it) {
                label = Some(l);
                break;
            }
        }
        let label = label.expect("every item can have an unknown attribute");
        let mut body = String::new();
        render_item(src, &it, &place, &mut body);
        let impls = if it.kind == Kind::Std {
            std_impls(&it.name)
        } else {
            String::new()
        };
        let text = format!(
            "{}{}",
            body,
            if impls.is_empty() {
                String::new()
            } else {
                format!("{}\n", impls)
            }
        );
        attrs += it.attrs.len() + it.members.iter().map(|m| m.attrs.len()).sum::<usize>();
        out.push((text, label));
    }
    (out, attrs)
}

fn assemble(items: &[(String, &'static str)]) -> Program {
    let mut o = HEADER.to_owned();
    o.push_str(
        "#[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)]\n\
         pub struct E { a: u8 }\n\
         #[derive(static_xml_derive::ParseText, static_xml_derive::ToText)]\n\
         #[static_xml(mode = \"union\")]\n\
         pub enum T { A(u8) }\n",
    );
    let mut places = Vec::new();
    for (i, (text, label)) in items.iter().enumerate() {
        let _ = writeln!(
            o,
            "mod m{} {{ #[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)] \
             struct NoDefault {{}}",
            i
        );
        let first = lines(&o) + 1;
        o.push_str(text);
        places.push((first, lines(&o), *label));
        o.push_str("}\n");
    }
    Program {
        text: o,
        items: places,
        attrs: 0,
    }
}

// ---------------------------------------------------------------------------------------------
// rustc

struct Diag {
    message: String,
    /// The lines of the primary spans in the crate.
    at: Vec<(usize, usize)>,
}

struct Verdict {
    ok: bool,
    errors: Vec<Diag>,
    stderr: String,
}

fn rustc(text: &str) -> Result<Verdict, Fail> {
    let need = |k: &str| {
        std::env::var(k).map_err(|_| Fail {
            msg: format!("{} isn't set", k),
        })
    };
    let (lib, derive) = (need("VH_STATIC_XML")?, need("VH_STATIC_XML_DERIVE")?);
    let deps = std::path::Path::new(&lib).parent().unwrap();
    let dir = std::env::temp_dir().join(format!("vh-c17-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("program.rs");
    std::fs::write(&file, text).unwrap();
    let out = Command::new("rustc")
        .args([
            "--edition",
            "2021",
            "--crate-type",
            "lib",
            "--crate-name",
            "program",
        ])
        .args(["--emit", "metadata", "--error-format", "json"])
        .arg("--out-dir")
        .arg(&dir)
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg("--extern")
        .arg(format!("static_xml={}", lib))
        .arg("--extern")
        .arg(format!("static_xml_derive={}", derive))
        .arg(&file)
        .stdin(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(dir.join("libprogram.rmeta"));
    let _ = std::fs::remove_dir(&dir);
    let out = out.map_err(|e| Fail {
        msg: format!("can't run rustc: {}", e),
    })?;
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    let mut errors = Vec::new();
    for l in stderr.lines() {
        let Some(j) = json::parse(l) else { continue };
        let level = j.get("level").and_then(|v| v.str()).unwrap_or("");
        if !level.starts_with("error") {
            continue;
        }
        let mut at = Vec::new();
        if let Some(spans) = j.get("spans").and_then(|v| v.list()) {
            for s in spans {
                if s.get("is_primary").map(|v| v.is_true()) == Some(true)
                    && s.get("file_name")
                        .and_then(|v| v.str())
                        .is_some_and(|f| f.ends_with("program.rs"))
                {
                    let n = |k: &str| s.get(k).and_then(|v| v.num()).unwrap_or(0);
                    at.push((n("line_start"), n("line_end")));
                }
            }
        }
        errors.push(Diag {
            message: j
                .get("message")
                .and_then(|v| v.str())
                .unwrap_or("")
                .to_owned(),
            at,
        });
    }
    Ok(Verdict {
        ok: out.status.success(),
        errors,
        stderr,
    })
}

fn crashed(v: &Verdict) -> Option<&str> {
    if v.stderr.contains("internal compiler error") {
        return Some("internal compiler error");
    }
    v.errors
        .iter()
        .map(|e| e.message.as_str())
        .find(|m| m.contains("panicked") || m.contains("unparseable") || m.contains("unparsable"))
}

fn excerpt(text: &str, first: usize, last: usize) -> String {
    text.lines()
        .skip(first.saturating_sub(1))
        .take(last + 1 - first)
        .collect::<Vec<_>>()
        .join("\n")
}

fn check_good(p: &Program) -> R {
    let v = rustc(&p.text)?;
    if v.ok {
        return Ok(());
    }
    if let Some(m) = crashed(&v) {
        fail!("crashed the compiler ({}):\n{}", m, p.text);
    }
    let e = v.errors.first();
    let culprit = e
        .and_then(|e| e.at.first())
        .and_then(|&(l, _)| p.items.iter().find(|i| i.0 <= l && l <= i.1))
        .map(|i| excerpt(&p.text, i.0, i.1))
        .unwrap_or_default();
    fail!(
        "a declaration made only of what's documented doesn't compile: {}\n{}\n\nin\n{}",
        e.map(|e| e.message.as_str()).unwrap_or(&v.stderr),
        culprit,
        p.text
    );
}

fn rejects(v: &Verdict, item: &(usize, usize, &'static str)) -> bool {
    v.errors
        .iter()
        .any(|e| e.at.iter().any(|&(a, b)| item.0 <= a && b <= item.1))
}

fn check_bad(items: &[(String, &'static str)]) -> R {
    let p = assemble(items);
    let v = rustc(&p.text)?;
    if let Some(m) = crashed(&v) {
        fail!("crashed the compiler ({}):\n{}", m, p.text);
    }
    for (i, it) in p.items.iter().enumerate() {
        if rejects(&v, it) {
            continue;
        }
        // An error elsewhere may have kept the compiler from getting to this.
        let p = assemble(&items[i..i + 1]);
        let v = rustc(&p.text)?;
        if let Some(m) = crashed(&v) {
            fail!("crashed the compiler ({}):\n{}", m, p.text);
        }
        ensure!(!v.ok, "compiles, despite {}:\n{}", it.2, items[i].0);
        ensure!(
            rejects(&v, &p.items[0]),
            "rejected for {}, but not by an error within the declaration ({}):\n{}",
            it.2,
            v.errors
                .iter()
                .map(|e| e.message.as_str())
                .next()
                .unwrap_or(""),
            items[i].0
        );
    }
    Ok(())
}

fn run(_: &Ctx, src: &mut Src, case: &mut Case) -> R {
    if src.pct(60) {
        let p = gen_good(src);
        case.label("compiles");
        case.key(&p.text);
        case.nontrivial = p.items.len() >= 3 && p.attrs > 0;
        case.evals = p.items.len() as u64;
        case.sample(|| p.text.clone());
        check_good(&p)
    } else {
        let (items, _) = gen_bad(src);
        case.label("rejected");
        for i in &items {
            case.label(i.1);
            case.also(true, i);
        }
        case.key(items.iter().map(|i| i.0.as_str()).collect::<String>());
        case.nontrivial = items.len() >= 3;
        case.sample(|| {
            items
                .iter()
                .map(|i| format!("// {}\n{}", i.1, i.0))
                .collect()
        });
        check_bad(&items)
    }
}

// ---------------------------------------------------------------------------------------------
// Fixed programs

const FIXED: &[(bool, &str)] = &[
    (
        true,
        "macro_rules! mk { ($n:ident, $f:ident, $t:ty, $r:literal) => {\n\
         #[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)]\n\
         struct $n { #[static_xml(attribute)] $f: $t, #[static_xml(text)] text: $t, b: Vec<$t> }\n\
         } }\nmk!(A, a, u8, \"x\");\n",
    ),
    // A type, a field, and a variant each with a raw identifier.
    (
        true,
        "#[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)]\n\
         struct r#type { r#fn: u8 }\n\
         #[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)]\n\
         enum r#match { r#loop(r#type), r#in }\n",
    ),
    // The visitor of Foo isn't FooVisitor.
    (
        true,
        "#[derive(static_xml_derive::Deserialize)]\n\
         struct Foo { a: FooVisitor, #[static_xml(flatten)] b: Bar }\n\
         #[derive(static_xml_derive::Deserialize)]\n\
         struct FooVisitor { b: u8 }\n\
         #[derive(static_xml_derive::Deserialize)]\n\
         enum Bar { A(BarVisitor) }\n\
         #[derive(static_xml_derive::Deserialize)]\n\
         struct BarVisitor { b: u8 }\n",
    ),
    (
        true,
        "type Result<T> = std::result::Result<T, ()>;\n\
         #[derive(static_xml_derive::Deserialize, static_xml_derive::Serialize)]\n\
         struct Foo { a: u8 }\n\
         #[derive(static_xml_derive::ParseText, static_xml_derive::ToText)]\n\
         #[static_xml(mode = \"restriction\")]\n\
         enum Bar { A }\n",
    ),
    (
        false,
        "#[derive(static_xml_derive::Deserialize)]\n\
         #[static_xml(namespace = \"xmlfoo: urn:a\")]\n\
         struct Foo { a: u8 }\n",
    ),
    (
        false,
        "#[derive(static_xml_derive::Serialize)]\n\
         #[static_xml(rename = \"a\", rename = \"b\")]\n\
         struct Foo { a: u8 }\n",
    ),
    (
        false,
        "#[derive(static_xml_derive::Serialize)]\n\
         enum Foo { #[static_xml(skip, bogus)] A, B }\n",
    ),
];

fn run_fixed(_: &Ctx, i: usize, case: &mut Case) -> R {
    let (good, text) = FIXED[i];
    case.nontrivial = true;
    case.key(text);
    if good {
        let n = lines(text);
        check_good(&Program {
            text: format!("{}{}", HEADER, text),
            items: vec![(2, n + 1, "")],
            attrs: 1,
        })
    } else {
        check_bad(&[(text.to_owned(), "a fixed misuse")])
    }
}

mod json {
    //! As much JSON as rustc's diagnostics need.

    pub enum V {
        Null,
        Bool(bool),
        Num(f64),
        Str(String),
        List(Vec<V>),
        Map(Vec<(String, V)>),
    }

    impl V {
        pub fn get(&self, k: &str) -> Option<&V> {
            match self {
                V::Map(m) => m.iter().find(|e| e.0 == k).map(|e| &e.1),
                _ => None,
            }
        }
        pub fn str(&self) -> Option<&str> {
            match self {
                V::Str(s) => Some(s),
                _ => None,
            }
        }
        pub fn list(&self) -> Option<&[V]> {
            match self {
                V::List(l) => Some(l),
                _ => None,
            }
        }
        pub fn num(&self) -> Option<usize> {
            match self {
                V::Num(n) => Some(*n as usize),
                _ => None,
            }
        }
        pub fn is_true(&self) -> bool {
            matches!(self, V::Bool(true))
        }
    }

    pub fn parse(s: &str) -> Option<V> {
        let mut p = P(s.as_bytes(), 0);
        let v = p.value()?;
        p.ws();
        (p.1 == p.0.len()).then_some(v)
    }

    struct P<'a>(&'a [u8], usize);

    impl P<'_> {
        fn ws(&mut self) {
            while self.0.get(self.1).is_some_and(|c| c.is_ascii_whitespace()) {
                self.1 += 1;
            }
        }
        fn eat(&mut self, c: u8) -> bool {
            self.ws();
            let hit = self.0.get(self.1) == Some(&c);
            self.1 += hit as usize;
            hit
        }
        fn word(&mut self, w: &str, v: V) -> Option<V> {
            self.0[self.1..].starts_with(w.as_bytes()).then(|| {
                self.1 += w.len();
                v
            })
        }
        fn string(&mut self) -> Option<String> {
            let mut out: Vec<u8> = Vec::new();
            let mut units: Vec<u16> = Vec::new();
            loop {
                let c = *self.0.get(self.1)?;
                self.1 += 1;
                if c == b'\\' && self.0.get(self.1) == Some(&b'u') {
                    let h = std::str::from_utf8(self.0.get(self.1 + 1..self.1 + 5)?).ok()?;
                    units.push(u16::from_str_radix(h, 16).ok()?);
                    self.1 += 5;
                    continue;
                }
                if !units.is_empty() {
                    out.extend_from_slice(String::from_utf16_lossy(&units).as_bytes());
                    units.clear();
                }
                match c {
                    b'"' => return String::from_utf8(out).ok(),
                    b'\\' => {
                        let e = *self.0.get(self.1)?;
                        self.1 += 1;
                        out.push(match e {
                            b'n' => b'\n',
                            b't' => b'\t',
                            b'r' => b'\r',
                            b'b' => 8,
                            b'f' => 12,
                            e => e,
                        });
                    }
                    c => out.push(c),
                }
            }
        }
        fn value(&mut self) -> Option<V> {
            self.ws();
            match *self.0.get(self.1)? {
                b'n' => self.word("null", V::Null),
                b't' => self.word("true", V::Bool(true)),
                b'f' => self.word("false", V::Bool(false)),
                b'"' => {
                    self.1 += 1;
                    self.string().map(V::Str)
                }
                b'[' => {
                    self.1 += 1;
                    let mut l = Vec::new();
                    if self.eat(b']') {
                        return Some(V::List(l));
                    }
                    loop {
                        l.push(self.value()?);
                        if self.eat(b']') {
                            return Some(V::List(l));
                        }
                        if !self.eat(b',') {
                            return None;
                        }
                    }
                }
                b'{' => {
                    self.1 += 1;
                    let mut m = Vec::new();
                    if self.eat(b'}') {
                        return Some(V::Map(m));
                    }
                    loop {
                        if !self.eat(b'"') {
                            return None;
                        }
                        let k = self.string()?;
                        if !self.eat(b':') {
                            return None;
                        }
                        m.push((k, self.value()?));
                        if self.eat(b'}') {
                            return Some(V::Map(m));
                        }
                        if !self.eat(b',') {
                            return None;
                        }
                    }
                }
                _ => {
                    let start = self.1;
                    while self
                        .0
                        .get(self.1)
                        .is_some_and(|c| b"+-.eE0123456789".contains(c))
                    {
                        self.1 += 1;
                    }
                    std::str::from_utf8(&self.0[start..self.1])
                        .ok()?
                        .parse()
                        .ok()
                        .map(V::Num)
                }
            }
        }
    }
}
