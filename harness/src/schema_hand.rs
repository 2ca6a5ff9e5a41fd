//! Hand-written types, so that certain shapes are present whatever the seed.

use crate::schema::*;

pub const A: &str = "http://example.com/a";
pub const B: &str = "http://example.com/b";
pub const X: &str = "urn:x";
pub const ODD: &str = "http://example.com/?p=1&q=<2>";

struct S<'z> {
    zoo: &'z mut Zoo,
    ident: String,
    nss: Vec<(String, String)>,
    rename: Option<String>,
    prefix: Option<String>,
    fields: Vec<Field>,
    variants: Vec<Variant>,
}

fn el<'z>(zoo: &'z mut Zoo, ident: &str, nss: &[(&str, &str)]) -> S<'z> {
    S {
        zoo,
        ident: ident.to_owned(),
        nss: nss
            .iter()
            .map(|(p, u)| (p.to_string(), u.to_string()))
            .collect(),
        rename: None,
        prefix: None,
        fields: vec![],
        variants: vec![],
    }
}

impl<'z> S<'z> {
    fn name(&self, spec: &str, ident: &str) -> (Option<String>, Option<String>, Name) {
        // "prefix:rename", either part of which may be missing ("_" for an explicitly empty
        // prefix).
        let (p, l) = match spec.split_once(':') {
            Some((p, l)) => (Some(p), l),
            None => (None, spec),
        };
        let p = p.map(|p| if p == "_" { "" } else { p });
        let ns = match p {
            None => String::new(),
            Some("xml") => XML_NS.to_owned(),
            Some(p) => self
                .nss
                .iter()
                .find(|(q, _)| q == p)
                .map(|(_, u)| u.clone())
                .unwrap_or_default(),
        };
        let rename = (!l.is_empty()).then(|| l.to_owned());
        let local = rename
            .clone()
            .unwrap_or_else(|| ident.trim_start_matches("r#").to_owned());
        (p.map(str::to_owned), rename, Name { ns, local })
    }

    fn root(mut self, spec: &str) -> Self {
        let (p, r, _) = self.name(spec, "");
        self.prefix = p;
        self.rename = r;
        self
    }

    fn field(
        mut self,
        kind: Kind,
        ident: &str,
        spec: &str,
        mult: Mult,
        ty: &str,
        default: bool,
    ) -> Self {
        let (prefix, rename, name) = self.name(spec, ident);
        let ty = if ty == "Self" {
            self.zoo.tys.len()
        } else {
            self.zoo.by_ident(ty)
        };
        self.fields.push(Field {
            ident: ident.to_owned(),
            kind,
            mult,
            ty,
            default,
            prefix,
            rename,
            name,
        });
        self
    }

    /// An element or (with a leading `@`) attribute. A trailing `=` means it has a default, and
    /// before that `?` or `*` its multiplicity.
    fn f(self, ident: &str, spec: &str, ty: &str) -> Self {
        let (kind, spec) = match spec.strip_prefix('@') {
            Some(s) => (Kind::Attr, s),
            None => (Kind::Elem, spec),
        };
        let (ty, default) = match ty.strip_suffix('=') {
            Some(t) => (t, true),
            None => (ty, false),
        };
        let (ty, mult) = match (ty.strip_suffix('?'), ty.strip_suffix('*')) {
            (Some(t), _) => (t, Mult::Opt),
            (_, Some(t)) => (t, Mult::Many),
            _ => (ty, Mult::One),
        };
        let ty = if ty == "Canary" { CANARY } else { ty };
        self.field(kind, ident, spec, mult, ty, default)
    }

    fn flat(self, ident: &str, ty: &str) -> Self {
        self.field(Kind::Flatten, ident, "", Mult::One, ty, false)
    }

    fn text(self, ident: &str, ty: &str) -> Self {
        let ty = if ty == "Canary" { CANARY } else { ty };
        self.field(Kind::Text, ident, "", Mult::One, ty, false)
    }

    fn v(mut self, ident: &str, spec: &str, ty: &str) -> Self {
        let (prefix, rename, name) = self.name(spec, ident);
        let (ty, mult) = match (ty.strip_suffix('?'), ty.strip_suffix('*')) {
            (Some(t), _) => (t, Mult::Opt),
            (_, Some(t)) => (t, Mult::Many),
            _ => (ty, Mult::One),
        };
        let ty = if ty == "Canary" { CANARY } else { ty };
        let (ty, skip) = match ty {
            "()" => (None, None),
            "skip0" => (None, Some(0)),
            "skip1" => (None, Some(1)),
            "skip2" => (None, Some(2)),
            t => (Some((mult, self.zoo.by_ident(t))), None),
        };
        self.variants.push(Variant {
            ident: ident.to_owned(),
            prefix,
            rename,
            name,
            ty,
            skip,
        });
        self
    }

    fn done(self) {
        let (prefix, rename) = (self.prefix.clone(), self.rename.clone());
        let ns = match prefix.as_deref() {
            None => String::new(),
            Some("xml") => XML_NS.to_owned(),
            Some(p) => self
                .nss
                .iter()
                .find(|(q, _)| q == p)
                .map(|(_, u)| u.clone())
                .unwrap_or_default(),
        };
        let name = Name {
            ns,
            local: rename.clone().unwrap_or_else(|| self.ident.clone()),
        };
        let body = if self.variants.is_empty() {
            Body::Struct(self.fields)
        } else {
            Body::Enum(self.variants)
        };
        self.zoo.push(
            &self.ident,
            Ty::Element(Element {
                rename,
                prefix,
                name,
                nss: self.nss,
                body,
            }),
        );
    }
}

const CANARY: &str = "crate::canary::Canary";

fn restriction(zoo: &mut Zoo, ident: &str, ws: Ws, spec: &[(&str, Option<&str>)]) {
    let variants = spec
        .iter()
        .map(|&(ident, text)| RVariant {
            ident: ident.to_owned(),
            text: text.unwrap_or(ident).trim_start_matches("r#").to_owned(),
            renamed: text.is_some(),
            unknown: ident == "Unknown",
        })
        .collect();
    zoo.push(ident, Ty::Text(TextTy::Restriction { ws, variants }));
}

fn union(zoo: &mut Zoo, ident: &str, ws: Ws, tys: &[&str]) {
    let variants = tys
        .iter()
        .enumerate()
        .map(|(i, t)| (format!("M{}", i), zoo.by_ident(t)))
        .collect();
    zoo.push(ident, Ty::Text(TextTy::Union { ws, variants }));
}

pub fn add(z: &mut Zoo) {
    // Text types.
    for (n, ws) in [("P", Ws::Preserve), ("R", Ws::Replace), ("C", Ws::Collapse)] {
        z.push(&format!("TStd{}", n), Ty::Text(TextTy::Std { ws }));
        restriction(
            z,
            &format!("TSize{}", n),
            ws,
            &[
                ("Small", Some("small")),
                ("Medium", None),
                ("VeryLarge", Some("very large")),
                ("Tabbed", Some("a\tb")),
                ("Spaced", Some(" a  b ")),
            ],
        );
        restriction(
            z,
            &format!("TOpen{}", n),
            ws,
            &[
                ("Small", Some("small")),
                ("Unknown", None),
                ("r#type", None),
                ("Last", Some("a b")),
            ],
        );
        union(
            z,
            &format!("TUnion{}", n),
            ws,
            &[
                "i8",
                "bool",
                &format!("TSize{}", n),
                "u16",
                &format!("TStd{}", n),
            ],
        );
    }
    restriction(z, "TOne", Ws::Preserve, &[("Only", Some(""))]);
    restriction(z, "TAll", Ws::Preserve, &[("Unknown", None)]);
    union(z, "TStrFirst", Ws::Preserve, &["String", "i32"]);
    union(z, "TStrLast", Ws::Collapse, &["TOpenP", "String"]);
    union(z, "TNested", Ws::Replace, &["f32", "TUnionC", CANARY]);
    union(z, "TStrict", Ws::Preserve, &["u8", "TSizeP", "TOne"]);

    // Plain structs.
    el(z, "HEmpty", &[]).done();
    el(z, "HAttr", &[]).f("a", "@", "String").done();
    el(z, "HElem", &[]).f("a", "", "String").done();
    let mut s = el(z, "HAttrs", &[]);
    for (i, p) in PRIMS.iter().enumerate() {
        s = s.f(&format!("a{}", i), "@", p.rust());
        s = s.f(&format!("o{}", i), "@", &format!("{}?", p.rust()));
    }
    s.done();
    let mut s = el(z, "HElems", &[]);
    for (i, p) in PRIMS.iter().enumerate() {
        s = s.f(&format!("e{}", i), "", p.rust());
        s = s.f(&format!("o{}", i), "", &format!("{}?", p.rust()));
        s = s.f(&format!("m{}", i), "", &format!("{}*", p.rust()));
    }
    s.done();
    el(z, "HMini", &[])
        .f("id", "@", "Canary")
        .f("v", "", "Canary?")
        .done();
    el(z, "HMults", &[("a", A)])
        .f("one", "a:One", "Canary")
        .f("opt", "a:Opt", "Canary?")
        .f("many", "a:Many", "Canary*")
        .f("a_one", "@a:One", "Canary")
        .f("a_opt", "@a:Opt", "Canary?")
        .f("n_one", "", "HMini")
        .f("n_opt", "", "HMini?")
        .f("n_many", "", "HMini*")
        .done();
    el(z, "HDefaults", &[])
        .f("a_one", "@", "Canary=")
        .f("a_opt", "@", "Canary?=")
        .f("a_num", "@", "u8=")
        .f("a_size", "@", "TSizeC=")
        .f("one", "", "Canary=")
        .f("opt", "", "Canary?=")
        .f("many", "", "Canary*=")
        .f("num", "", "i32=")
        .f("size", "", "TSizeC=")
        .f("std", "", "TStdP=")
        .f("bool", "", "bool=")
        .f("req", "", "u8")
        .done();
    el(z, "HDefaultable", &[("a", A)])
        .f("x", "a:", "Canary")
        .f("y", "@", "u8=")
        .f("z", "", "HMini*")
        .done();
    el(z, "HDefStruct", &[])
        .f("nested", "", "HDefaultable=")
        .f("opt", "", "HDefaultable?")
        .f("tail", "", "Canary")
        .done();

    // Wide ones, with names which sort differently with and without the namespace.
    let mut s = el(z, "HWide", &[("b", A), ("a", B), ("", X)]);
    for i in 0..24 {
        let p = ["a:", "b:", "_:", ""][i % 4];
        s = s.f(
            &format!("w{}", i),
            &format!("{}n{}", p, (i * 7) % 24 / 2),
            if i % 3 == 0 { "u8?" } else { "u8*" },
        );
        s = s.f(
            &format!("at{}", i),
            &format!(
                "@{}n{}",
                ["a:", "b:", "_:", ""][(i + 1) % 4],
                (i * 5) % 24 / 2
            ),
            "String?",
        );
    }
    s.done();

    // Namespaces.
    el(
        z,
        "HNs",
        &[("a", A), ("b", B), ("a2", A), ("", X), ("o", ODD)],
    )
    .root("a:root")
    .f("f0", "a:x", "u8?")
    .f("f1", "b:x", "i8?")
    .f("f2", "x", "bool?")
    .f("f3", "_:x", "i16?")
    .f("f4", "o:x", "u16?")
    .f("f5", "a2:y", "u8?")
    .f("g0", "@a:x", "u8?")
    .f("g1", "@b:x", "i8?")
    .f("g2", "@x", "bool?")
    .f("g3", "@_:x", "i16?")
    .f("g4", "@o:x", "u16?")
    .f("g5", "@a2:y", "u8?")
    .done();
    el(z, "HXml", &[])
        .f("lang", "@xml:", "String?")
        .f("space", "@xml:space", "Canary?")
        .f("plain", "@lang", "String?")
        .done();
    el(z, "HDefNsIn", &[("", B)])
        .f("x", "_:x", "String?")
        .f("y", "y", "String?")
        .f("at", "@_:at", "String?")
        .done();
    el(z, "HDefNs", &[("", A)])
        .root("_:d")
        .f("inner", "_:inner", "HDefNsIn*")
        .f("bare", "bare", "HDefNsIn*")
        .f("t", "", "String?")
        .done();
    // A prefix which means something different in each generation.
    el(z, "HGen3", &[("a", A), ("b", X)])
        .f("x", "a:x", "String*")
        .f("y", "@a:y", "String?")
        .f("z", "b:z", "String?")
        .done();
    el(z, "HGen2", &[("a", B), ("ns", A)])
        .f("x", "a:x", "HGen3*")
        .f("y", "@a:y", "String?")
        .f("w", "ns:w", "HGen3?")
        .f("u", "u", "HGen3?")
        .done();
    el(z, "HGen1", &[("a", A), ("b", ODD)])
        .root("a:gen")
        .f("x", "a:x", "HGen2*")
        .f("y", "@a:y", "String?")
        .f("z", "b:z", "HGen3?")
        .done();

    // Text.
    el(z, "HText", &[])
        .f("id", "@", "String?")
        .text("body", "String")
        .done();
    el(z, "HTextC", &[])
        .text("body", "TStdC")
        .f("e", "", "Canary*")
        .done();
    el(z, "HTextNum", &[("a", A)])
        .f("unit", "@a:unit", "Canary")
        .text("r#fn", "i32")
        .f("r#type", "", "Canary?")
        .done();

    // Enums.
    el(z, "EPlain", &[])
        .v("ChoiceA", "", "String")
        .v("ChoiceB", "", "u8")
        .done();
    el(z, "EMults", &[("a", A), ("b", B)])
        .root("a:em")
        .v("One", "a:x", "Canary")
        .v("Opt", "b:x", "Canary?")
        .v("Many", "x", "Canary*")
        .v("Unit", "a:unit", "()")
        .v("Nest", "b:", "HMini*")
        .done();
    el(z, "ESkip", &[])
        .v("Live", "", "Canary")
        .v("Skipped", "", "skip0")
        .v("Also", "", "skip1")
        .v("r#type", "", "u8*")
        .v("Third", "", "skip2")
        .done();
    el(z, "EUnit", &[("", A)])
        .v("Z", "_:", "()")
        .v("M", "", "()")
        .v("A", "_:M", "()")
        .done();
    el(z, "EDefNs", &[("", B)])
        .v("P", "_:p", "HDefNsIn")
        .v("Q", "p", "HDefNsIn*")
        .done();
    // The empty prefix standing for no namespace, as an explicit mapping or for lack of one.
    el(z, "ENoNs", &[("", "")])
        .root("_:")
        .v("A", "_:", "Canary*")
        .v("B", "", "u8?")
        .v("C", "_:", "()")
        .v("D", "", "HDefNsIn")
        .done();
    el(z, "ENoDef", &[("a", A)])
        .v("A", "_:", "Canary*")
        .v("B", "a:", "u8?")
        .v("C", "", "()")
        .done();
    el(z, "HNoNs", &[("", ""), ("a", A)])
        .root("a:")
        .f("x", "_:", "Canary?")
        .f("y", "", "HDefNsIn*")
        .f("z", "a:", "Canary*")
        .f("e", "", "ENoNs?")
        .f("p", "@_:", "u8?")
        .f("q", "@", "u8?")
        .done();

    // Flattening.
    el(z, "FBase", &[("a", A)])
        .f("id", "@", "Canary")
        .f("opt", "@a:opt", "Canary?")
        .f("be", "a:be", "Canary")
        .f("bm", "bm", "Canary*")
        .done();
    el(z, "FDeep", &[("a", B)])
        .flat("base", "FBase")
        .f("deep", "a:deep", "Canary?")
        .flat("choice", "EMults")
        .f("dd", "@a:dd", "u8=")
        .done();
    el(z, "FOuter", &[("z", X)])
        .f("fixed", "", "Canary")
        .flat("inner", "FDeep")
        .f("tail", "@z:tail", "Canary?")
        .flat("plain", "EPlain")
        .done();
    el(z, "FTwo", &[])
        .flat("first", "EPlain")
        .flat("second", "ESkip")
        .f("own", "", "u8?")
        .flat("third", "EUnit")
        .done();
    el(z, "FText", &[])
        .f("k", "@", "u8?")
        .flat("t", "HText")
        .f("e", "", "Canary*")
        .done();
    el(z, "FOpt", &[]).flat("only", "HNs").done();
    // Here fields want the same things; earlier ones win.
    el(z, "FAgain", &[("a", A)])
        .f("be", "a:be", "u8?")
        .f("opt", "@a:opt", "u8?")
        .f("other", "@a:other", "u8?")
        .f("unit", "", "u8?")
        .done();
    el(z, "FOverlap", &[("q", A)])
        .f("id", "@", "Canary?")
        .flat("base", "FBase")
        .f("bm", "", "u8*")
        .flat("base2", "FAgain")
        .flat("t1", "FText")
        .flat("t2", "HTextNum")
        .done();

    // Likewise, but as all of it is optional, documents for these are commonly valid.
    el(z, "FOptA", &[("a", A)])
        .f("x", "@", "String?")
        .f("ax", "@a:x", "Canary?")
        .f("y", "@", "String?")
        .f("e", "", "String?")
        .f("m", "", "Canary*")
        .done();
    el(z, "FOptB", &[("b", A)])
        .f("y", "@", "Canary?")
        .f("x", "@", "String?")
        .f("bx", "@b:x", "String?")
        .f("w", "@", "u8?")
        .f("e", "", "String*")
        .f("f", "", "HMini*")
        .done();
    el(z, "FOptC", &[])
        .f("w", "@", "String=")
        .text("t", "String")
        .f("f", "", "HMini?")
        .f("m", "", "Canary*")
        .done();
    el(z, "FOpts1", &[])
        .flat("a", "FOptA")
        .flat("b", "FOptB")
        .flat("c", "FOptC")
        .flat("d", "HText")
        .done();
    el(z, "FOpts2", &[])
        .flat("c", "HText")
        .flat("b", "FOptB")
        .f("m", "", "Canary?")
        .flat("d", "FOptC")
        .flat("a", "FOptA")
        .f("w", "@", "String?")
        .done();
    el(z, "FOpts3", &[])
        .flat("b", "FOptB")
        .flat("one", "FOpts1")
        .flat("two", "FOpts2")
        .done();

    // Raw identifiers and recursion.
    el(z, "HRaw", &[])
        .f("r#type", "@", "Canary?")
        .f("r#match", "", "Canary*")
        .f("r#loop", "@", "Canary=")
        .flat("r#use", "ESkip")
        .done();
    el(z, "HRec", &[("a", A)])
        .f("id", "@", "Canary?")
        .f("kids", "a:n", "Self*")
        .f("leaf", "leaf", "Canary*")
        .done();
    el(z, "HList", &[])
        .f("item", "", "HMini*")
        .f("num", "", "i64*")
        .f("s", "", "String*")
        .done();

    // A namespace mapped both as the default and with a prefix, which attributes go by.
    el(z, "NBoth", &[("", A), ("pre", A), ("b", B)])
        .root("pre:")
        .f("x", "@pre:", "String?")
        .f("y", "@_:", "u8?")
        .f("bx", "@b:x", "u8?")
        .f("e", "pre:", "Canary?")
        .f("e2", "_:", "HMini*")
        .f("n", "", "String?")
        .f("kids", "b:", "Self*")
        .done();
    el(z, "NPre", &[("pre", A)])
        .f("k", "@pre:", "String?")
        .f("ke", "pre:", "String?")
        .done();
    el(z, "NOther", &[("pre", B), ("ns1", X)])
        .f("l", "@pre:", "String?")
        .f("m", "@ns1:", "String?")
        .done();
    el(z, "NDefault", &[("", A)])
        .f("e", "_:", "NPre?")
        .flat("other", "NOther")
        .flat("pre", "NPre")
        .f("both", "_:", "NBoth*")
        .done();

    // More of everything than any plausible set of flags holds.
    let words: Vec<String> = (0..260).map(|i| format!("V{}", i * 37 % 260)).collect();
    let spec: Vec<(&str, Option<&str>)> = words.iter().map(|w| (&w[..], None)).collect();
    restriction(z, "TMany", Ws::Collapse, &spec);
    let mut s = el(z, "HManyFields", &[("a", A)]).root("a:");
    for i in 0..131 {
        let n = i * 37 % 131;
        s = s.f(
            &format!("at{}", n),
            ["@", "@a:"][i % 2],
            ["u8?", "TMany?", "bool", "u8="][n % 13 % 4],
        );
        s = s.f(
            &format!("el{}", n),
            ["a:", ""][i % 2],
            ["u8?", "Canary?", "u8*", "bool", "u8="][n % 17 % 5],
        );
    }
    s.done();
    let mut s = el(z, "HManyVariants", &[("a", A), ("", B)]);
    for i in 0..260 {
        s = s.v(
            &format!("V{}", i * 37 % 260),
            ["a:", "", "_:"][i % 3],
            ["u8*", "()", "Canary", "TMany", "Canary?"][i % 5],
        );
    }
    s.done();
    el(z, "HManyFlat", &[("a", A)])
        .f("own", "a:", "u8?")
        .flat("fields", "HManyFields")
        .flat("choice", "HManyVariants")
        .done();

    // Names and texts which are alike for long.
    let url = |end: &str| format!("http://example.com/{}{}", "long/".repeat(60), end);
    let (la, lb) = (url("a"), url("b"));
    let long = |start: &str, end: &str| format!("{}{}{}", start, "long".repeat(70), end);
    let lx = long("x", "");
    let names = [long("", "a"), long("", "b"), long("", ""), long("_", "a")];
    let texts: Vec<(String, String)> = ["a", "b", "", "a b", "é"]
        .iter()
        .enumerate()
        .map(|(i, e)| (format!("L{}", i), long("t ", e)))
        .collect();
    let spec: Vec<(&str, Option<&str>)> =
        texts.iter().map(|(i, t)| (&i[..], Some(&t[..]))).collect();
    restriction(z, "TLong", Ws::Collapse, &spec);
    let nss = [("a", &la[..]), ("b", &lb[..]), (&lx[..], X)];
    let mut s = el(z, "HLong", &nss).root(&format!("a:{}", names[0]));
    let mut v = Vec::new();
    for (i, n) in names.iter().enumerate() {
        for (j, p) in ["a:", "b:", "", &format!("{}:", lx)].iter().enumerate() {
            let id = format!("{}_{}", i, j);
            s = s.f(
                &format!("e{}", id),
                &format!("{}{}", p, n),
                ["u8?", "TLong*"][i % 2],
            );
            s = s.f(
                &format!("a{}", id),
                &format!("@{}{}", p, n),
                ["TLong?", "u8="][j % 2],
            );
            v.push((format!("V{}", id), format!("{}{}", p, n)));
        }
    }
    s.done();
    let mut s = el(z, "HLongChoice", &nss).root(&format!("b:{}", names[1]));
    for (i, (ident, spec)) in v.iter().enumerate() {
        s = s.v(ident, spec, ["u8*", "()", "TLong"][i % 3]);
    }
    s.done();
}
