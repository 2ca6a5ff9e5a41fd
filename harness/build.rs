//! Writes Rust source for every type in the zoo.

#[path = "src/schema.rs"]
mod schema;
#[path = "src/schema_hand.rs"]
mod schema_hand;

use schema::*;
use std::fmt::Write;

fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-changed=src/schema.rs");
    println!("cargo:rerun-if-changed=src/schema_hand.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("ZOO_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    println!("cargo:rustc-env=ZOO_SEED={}", seed);
    let zoo = Zoo::generate(seed);
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("zoo.rs");
    std::fs::write(out, emit(&zoo)).unwrap();
}

fn emit(zoo: &Zoo) -> String {
    let mut o = String::new();
    let mut entries = String::new();
    for (id, (ident, ty)) in zoo.tys.iter().enumerate() {
        match ty {
            Ty::Text(t) => {
                emit_text(zoo, id, ident, t, &mut o);
                let _ = writeln!(entries, "        {} => text_entry::<{}>(),", id, ident);
            }
            Ty::Element(e) => {
                emit_element(zoo, id, ident, e, &mut o);
                let _ = writeln!(entries, "        {} => elem_entry::<{}>(),", id, ident);
            }
        }
    }
    let _ = write!(
        o,
        "pub fn entry(id: usize) -> Entry {{\n    match id {{\n{}        _ => unreachable!(),\n    }}\n}}\n",
        entries
    );
    o
}

fn items(v: &[String]) -> String {
    if v.is_empty() {
        String::new()
    } else {
        format!("#[static_xml({})]\n", v.join(", "))
    }
}

fn emit_text(zoo: &Zoo, id: TyId, ident: &str, t: &TextTy, o: &mut String) {
    let head = |mode: &str, ws: Ws| {
        let mut v = vec![format!("mode = {:?}", mode)];
        match ws {
            // It's the default.
            Ws::Preserve if id % 2 == 0 => {}
            Ws::Preserve => v.push("whitespace = \"preserve\"".to_owned()),
            Ws::Replace => v.push("whitespace = \"replace\"".to_owned()),
            Ws::Collapse => v.push("whitespace = \"collapse\"".to_owned()),
        }
        format!("#[derive(ParseText, ToText)]\n{}", items(&v))
    };
    match t {
        TextTy::Prim(_) => {}
        TextTy::Std { ws } => {
            let _ = write!(
                o,
                "{}pub struct {id}(pub String);\nstd_text!({id});\n",
                head("std", *ws),
                id = ident
            );
        }
        TextTy::Restriction { ws, variants } => {
            let _ = write!(o, "{}pub enum {} {{\n", head("restriction", *ws), ident);
            for v in variants {
                if v.unknown {
                    let _ = writeln!(o, "    #[static_xml(unknown)]\n    {}(String),", v.ident);
                } else {
                    if v.renamed {
                        let _ = writeln!(o, "    #[static_xml(rename = {:?})]", v.text);
                    }
                    let _ = writeln!(o, "    {},", v.ident);
                }
            }
            let _ = write!(o, "}}\nimpl TModel for {} {{\n    fn tbuild(v: &TVal) -> Self {{\n        match v {{\n", ident);
            for (i, v) in variants.iter().enumerate() {
                let _ = if v.unknown {
                    writeln!(o, "            TVal::Restriction({}, Some(s)) => Self::{}(s.clone()),", i, v.ident)
                } else {
                    writeln!(o, "            TVal::Restriction({}, None) => Self::{},", i, v.ident)
                };
            }
            let _ = write!(o, "            _ => unreachable!(),\n        }}\n    }}\n    fn tview(&self) -> TVal {{\n        match self {{\n");
            for (i, v) in variants.iter().enumerate() {
                let _ = if v.unknown {
                    writeln!(o, "            Self::{}(s) => TVal::Restriction({}, Some(s.clone())),", v.ident, i)
                } else {
                    writeln!(o, "            Self::{} => TVal::Restriction({}, None),", v.ident, i)
                };
            }
            let _ = write!(o, "        }}\n    }}\n}}\ntmodel!({});\n", ident);
            if let Some(v) = variants.iter().rev().find(|v| !v.unknown) {
                let _ = write!(
                    o,
                    "impl Default for {} {{\n    fn default() -> Self {{ Self::{} }}\n}}\n",
                    ident, v.ident
                );
            }
        }
        TextTy::Union { ws, variants } => {
            let _ = write!(o, "{}pub enum {} {{\n", head("union", *ws), ident);
            for (v, ty) in variants {
                let _ = writeln!(o, "    {}({}),", v, zoo.tys[*ty].0);
            }
            let _ = write!(o, "}}\nimpl TModel for {} {{\n    fn tbuild(v: &TVal) -> Self {{\n        match v {{\n", ident);
            for (i, (v, _)) in variants.iter().enumerate() {
                let _ = writeln!(o, "            TVal::Union({}, t) => Self::{}(TModel::tbuild(t)),", i, v);
            }
            let _ = write!(o, "            _ => unreachable!(),\n        }}\n    }}\n    fn tview(&self) -> TVal {{\n        match self {{\n");
            for (i, (v, _)) in variants.iter().enumerate() {
                let _ = writeln!(o, "            Self::{}(t) => TVal::Union({}, Box::new(TModel::tview(t))),", v, i);
            }
            let _ = write!(o, "        }}\n    }}\n}}\ntmodel!({});\n", ident);
        }
    }
}

fn rust_ty(zoo: &Zoo, mult: Mult, ty: TyId) -> String {
    let t = &zoo.tys[ty].0;
    match mult {
        Mult::One => t.clone(),
        Mult::Opt => format!("Option<{}>", t),
        Mult::Many => format!("Vec<{}>", t),
    }
}

fn emit_element(zoo: &Zoo, id: TyId, ident: &str, e: &Element, o: &mut String) {
    let mut v = Vec::new();
    // The order among these shouldn't matter.
    if let Some(p) = &e.prefix {
        v.push(format!("prefix = {:?}", p));
    }
    for (p, u) in &e.nss {
        if p.is_empty() {
            v.push(format!("default_namespace = {:?}", u));
        } else {
            v.push(format!("namespace = {:?}", format!("{}: {}", p, u)));
        }
    }
    if let Some(r) = &e.rename {
        v.push(format!("rename = {:?}", r));
    }
    if id % 2 == 0 {
        v.reverse();
    }
    let default = zoo.can_default(id);
    let _ = write!(
        o,
        "#[derive({}Deserialize, Serialize)]\n{}",
        if default { "Default, " } else { "" },
        items(&v)
    );
    match &e.body {
        Body::Struct(fields) => {
            let _ = write!(o, "pub struct {} {{\n", ident);
            for f in fields {
                let mut v = Vec::new();
                match f.kind {
                    Kind::Attr => v.push("attribute".to_owned()),
                    Kind::Elem => {}
                    Kind::Flatten => v.push("flatten".to_owned()),
                    Kind::Text => v.push("text".to_owned()),
                }
                if f.default {
                    v.push("default".to_owned());
                }
                if let Some(p) = &f.prefix {
                    v.push(format!("prefix = {:?}", p));
                }
                if let Some(r) = &f.rename {
                    v.push(format!("rename = {:?}", r));
                }
                let _ = writeln!(
                    o,
                    "    {}    pub {}: {},",
                    items(&v),
                    f.ident,
                    rust_ty(zoo, f.mult, f.ty)
                );
            }
            let _ = write!(o, "}}\nimpl Model for {} {{\n    fn build(v: &Val) -> Self {{\n        let _v = fields(v);\n        {} {{\n", ident, ident);
            for (i, f) in fields.iter().enumerate() {
                let _ = writeln!(o, "            {}: Model::build(&_v[{}]),", f.ident, i);
            }
            let _ = write!(o, "        }}\n    }}\n    fn view(&self) -> Val {{\n        Val::Struct(vec![\n");
            for f in fields {
                let _ = writeln!(o, "            Model::view(&self.{}),", f.ident);
            }
            let _ = write!(o, "        ])\n    }}\n}}\n");
        }
        Body::Enum(variants) => {
            let _ = write!(o, "pub enum {} {{\n", ident);
            for v in variants {
                let mut a = Vec::new();
                if v.skip.is_some() {
                    a.push("skip".to_owned());
                }
                if let Some(p) = &v.prefix {
                    a.push(format!("prefix = {:?}", p));
                }
                if let Some(r) = &v.rename {
                    a.push(format!("rename = {:?}", r));
                }
                let _ = write!(o, "    {}    {}", items(&a), v.ident);
                let _ = match (v.skip, v.ty) {
                    (Some(1), _) => writeln!(o, "(u8, String),"),
                    (Some(2), _) => writeln!(o, " {{ _a: u8 }},"),
                    (_, Some((m, t))) => writeln!(o, "({}),", rust_ty(zoo, m, t)),
                    _ => writeln!(o, ","),
                };
            }
            let _ = write!(o, "}}\nimpl Model for {} {{\n    fn build(v: &Val) -> Self {{\n        match v {{\n", ident);
            for (i, v) in variants.iter().enumerate() {
                let _ = match (v.skip, v.ty) {
                    (Some(1), _) => writeln!(o, "            Val::Enum({}, _) => Self::{}(1, String::new()),", i, v.ident),
                    (Some(2), _) => writeln!(o, "            Val::Enum({}, _) => Self::{} {{ _a: 1 }},", i, v.ident),
                    (_, Some(_)) => writeln!(o, "            Val::Enum({}, Some(t)) => Self::{}(Model::build(t)),", i, v.ident),
                    _ => writeln!(o, "            Val::Enum({}, _) => Self::{},", i, v.ident),
                };
            }
            let _ = write!(o, "            _ => unreachable!(),\n        }}\n    }}\n    fn view(&self) -> Val {{\n        match self {{\n");
            for (i, v) in variants.iter().enumerate() {
                let _ = match (v.skip, v.ty) {
                    (Some(1), _) => writeln!(o, "            Self::{}(..) => Val::Enum({}, None),", v.ident, i),
                    (Some(2), _) => writeln!(o, "            Self::{} {{ .. }} => Val::Enum({}, None),", v.ident, i),
                    (_, Some(_)) => writeln!(o, "            Self::{}(t) => Val::Enum({}, Some(Box::new(Model::view(t)))),", v.ident, i),
                    _ => writeln!(o, "            Self::{} => Val::Enum({}, None),", v.ident, i),
                };
            }
            let _ = write!(o, "        }}\n    }}\n}}\n");
        }
    }
}
