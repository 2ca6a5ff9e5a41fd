//! Descriptions of derived types, and the generator which produces them.
//!
//! This module is compiled twice: by `build.rs`, which writes out Rust source for every type in
//! the zoo, and by the harness, which needs the same descriptions as the input of its reference
//! model. Both call [`Zoo::generate`] with the same seed.

#![allow(dead_code)]

pub type TyId = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ws {
    Preserve,
    Replace,
    Collapse,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prim {
    Str,
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    I128,
    U128,
    F32,
    F64,
    /// The harness's own `ParseText + ToText` type, which counts its live instances.
    Canary,
}

pub const PRIMS: &[Prim] = &[
    Prim::Str,
    Prim::Bool,
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
    Prim::I128,
    Prim::U128,
    Prim::F32,
    Prim::F64,
    Prim::Canary,
];

impl Prim {
    pub fn rust(self) -> &'static str {
        match self {
            Prim::Str => "String",
            Prim::Bool => "bool",
            Prim::I8 => "i8",
            Prim::U8 => "u8",
            Prim::I16 => "i16",
            Prim::U16 => "u16",
            Prim::I32 => "i32",
            Prim::U32 => "u32",
            Prim::I64 => "i64",
            Prim::U64 => "u64",
            Prim::I128 => "i128",
            Prim::U128 => "u128",
            Prim::F32 => "f32",
            Prim::F64 => "f64",
            Prim::Canary => "crate::canary::Canary",
        }
    }
}

#[derive(Clone, Debug)]
pub enum TextTy {
    Prim(Prim),
    /// `mode = "std"`, over a harness type whose `FromStr` rejects upper case and `!`.
    Std {
        ws: Ws,
    },
    /// `mode = "restriction"`. Each variant has its identifier and its text; the text is given
    /// with `rename` iff `renamed`.
    Restriction {
        ws: Ws,
        variants: Vec<RVariant>,
    },
    Union {
        ws: Ws,
        variants: Vec<(String, TyId)>,
    },
}

#[derive(Clone, Debug)]
pub struct RVariant {
    pub ident: String,
    pub text: String,
    pub renamed: bool,
    pub unknown: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Name {
    pub ns: String,
    pub local: String,
}

impl Name {
    pub fn new(ns: &str, local: &str) -> Self {
        Name {
            ns: ns.to_owned(),
            local: local.to_owned(),
        }
    }
}

impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.ns.is_empty() {
            write!(f, "{}", self.local)
        } else {
            write!(f, "{{{}}}{}", self.ns, self.local)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mult {
    One,
    Opt,
    Many,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Attr,
    Elem,
    Flatten,
    Text,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ident: String,
    pub kind: Kind,
    pub mult: Mult,
    pub ty: TyId,
    pub default: bool,
    pub prefix: Option<String>,
    pub rename: Option<String>,
    pub name: Name,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: String,
    pub prefix: Option<String>,
    pub rename: Option<String>,
    pub name: Name,
    /// `None` for a unit variant.
    pub ty: Option<(Mult, TyId)>,
    /// `Some(shape)` for a skipped variant: 0 unit, 1 two-field tuple, 2 named field.
    pub skip: Option<u8>,
}

#[derive(Clone, Debug)]
pub struct Element {
    pub rename: Option<String>,
    pub prefix: Option<String>,
    pub name: Name,
    /// `(prefix, url)`, in the order written. An empty prefix is `default_namespace`.
    pub nss: Vec<(String, String)>,
    pub body: Body,
}

#[derive(Clone, Debug)]
pub enum Body {
    Struct(Vec<Field>),
    Enum(Vec<Variant>),
}

#[derive(Clone, Debug)]
pub enum Ty {
    Text(TextTy),
    Element(Element),
}

#[derive(Clone, Debug)]
pub struct Zoo {
    pub tys: Vec<(String, Ty)>,
    /// The types below this index are hand-written rather than random.
    pub hand: usize,
}

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

/// Namespace URLs, chosen to be easily confused with each other and to need escaping.
pub const URLS: &[&str] = &[
    "http://example.com/a",
    "http://example.com/b",
    "http://example.com/A",
    "urn:x",
    "http://example.com/?p=1&q=<2>",
    "http://example.com/a/",
    "it's \"quoted\"",
];

pub const PREFIXES: &[&str] = &["a", "b", "ns", "ns1", "foo", "foo2", "B"];

pub const LOCALS: &[&str] = &[
    "a", "b", "A", "foo", "Foo", "x-y", "x.y", "_u", "é", "item", "value", "type", "n1", "aa",
];

/// SplitMix64.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

impl Zoo {
    pub fn text(&self, id: TyId) -> Option<&TextTy> {
        match &self.tys[id].1 {
            Ty::Text(t) => Some(t),
            _ => None,
        }
    }

    pub fn element(&self, id: TyId) -> Option<&Element> {
        match &self.tys[id].1 {
            Ty::Element(e) => Some(e),
            _ => None,
        }
    }

    pub fn fields(&self, id: TyId) -> Option<&[Field]> {
        match self.element(id) {
            Some(Element {
                body: Body::Struct(f),
                ..
            }) => Some(f),
            _ => None,
        }
    }

    pub fn variants(&self, id: TyId) -> Option<&[Variant]> {
        match self.element(id) {
            Some(Element {
                body: Body::Enum(v),
                ..
            }) => Some(v),
            _ => None,
        }
    }

    pub fn by_ident(&self, ident: &str) -> TyId {
        self.tys
            .iter()
            .position(|(i, _)| i == ident)
            .unwrap_or_else(|| panic!("no type {}", ident))
    }

    /// Whether the Rust type has a `Default` impl.
    pub fn can_default(&self, id: TyId) -> bool {
        match &self.tys[id].1 {
            Ty::Text(TextTy::Prim(_)) | Ty::Text(TextTy::Std { .. }) => true,
            Ty::Text(TextTy::Restriction { variants, .. }) => variants.iter().any(|v| !v.unknown),
            Ty::Text(TextTy::Union { .. }) => false,
            Ty::Element(Element {
                body: Body::Struct(fields),
                ..
            }) => fields
                .iter()
                .all(|f| f.mult != Mult::One || (f.ty != id && self.can_default(f.ty))),
            Ty::Element(_) => false,
        }
    }

    /// All attribute names, element names, and text fields which `id` would consume, with those
    /// of flattened fields. Duplicates mean that fields shadow each other.
    pub fn consumed(&self, id: TyId) -> (Vec<Name>, Vec<Name>, usize) {
        let (mut attrs, mut elems, mut texts) = (Vec::new(), Vec::new(), 0);
        if let Some(fields) = self.fields(id) {
            for f in fields {
                match f.kind {
                    Kind::Attr => attrs.push(f.name.clone()),
                    Kind::Elem => elems.push(f.name.clone()),
                    Kind::Text => texts += 1,
                    Kind::Flatten => {
                        let (a, e, t) = self.consumed(f.ty);
                        attrs.extend(a);
                        elems.extend(e);
                        texts += t;
                    }
                }
            }
        }
        if let Some(variants) = self.variants(id) {
            for v in variants {
                if v.skip.is_none() {
                    elems.push(v.name.clone());
                }
            }
        }
        (attrs, elems, texts)
    }

    /// True if no two (own or flattened) fields want the same thing, so that serializing and
    /// deserializing are each other's inverse.
    pub fn unambiguous(&self, id: TyId) -> bool {
        let uniq = |mut v: Vec<Name>| {
            let n = v.len();
            v.sort();
            v.dedup();
            v.len() == n
        };
        let (a, e, t) = self.consumed(id);
        uniq(a)
            && uniq(e)
            && t <= 1
            && self
                .refs(id)
                .iter()
                .all(|&r| r == id || self.unambiguous(r))
    }

    /// The types of all fields and variants.
    pub fn refs(&self, id: TyId) -> Vec<TyId> {
        let mut out = Vec::new();
        if let Some(fields) = self.fields(id) {
            out.extend(fields.iter().map(|f| f.ty));
        }
        if let Some(variants) = self.variants(id) {
            out.extend(variants.iter().filter_map(|v| v.ty.map(|t| t.1)));
        }
        if let Some(TextTy::Union { variants, .. }) = self.text(id) {
            out.extend(variants.iter().map(|v| v.1));
        }
        out
    }

    /// Whether `id` or any type it refers to satisfies `f`.
    pub fn any(&self, id: TyId, f: &dyn Fn(&Ty) -> bool) -> bool {
        f(&self.tys[id].1) || self.refs(id).iter().any(|&r| r != id && self.any(r, f))
    }

    pub fn is_enum(&self, id: TyId) -> bool {
        self.variants(id).is_some()
    }

    pub fn has_flatten(&self, id: TyId) -> bool {
        self.fields(id)
            .map_or(false, |f| f.iter().any(|f| f.kind == Kind::Flatten))
    }

    pub fn generate(seed: u64) -> Zoo {
        let mut zoo = Zoo {
            tys: Vec::new(),
            hand: 0,
        };
        zoo.add_prims();
        crate::schema_hand::add(&mut zoo);
        zoo.hand = zoo.tys.len();
        zoo.add_random(seed);
        zoo
    }

    pub fn push(&mut self, ident: &str, ty: Ty) -> TyId {
        assert!(
            !self.tys.iter().any(|(i, _)| i == ident),
            "duplicate type {}",
            ident
        );
        self.tys.push((ident.to_owned(), ty));
        self.tys.len() - 1
    }

    fn add_prims(&mut self) {
        for &p in PRIMS {
            self.push(p.rust(), Ty::Text(TextTy::Prim(p)));
        }
    }

    fn add_random(&mut self, seed: u64) {
        let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(77));
        for i in 0..14 {
            let ty = self.random_text(&mut r);
            self.push(&format!("RT{}", i), Ty::Text(ty));
        }
        for i in 0..120 {
            // Interleave so that enums can hold structs and vice versa.
            let e = if i % 4 == 1 {
                self.random_enum(&mut r, &format!("RE{}", i))
            } else {
                self.random_struct(&mut r, &format!("RS{}", i))
            };
            let ident = format!("R{}{}", if i % 4 == 1 { 'E' } else { 'S' }, i);
            self.push(&ident, Ty::Element(e));
        }
        // Types whose fields commonly shadow each other's.
        let first = self.tys.len();
        for i in 0..14 {
            let ident = format!("RO{}", i);
            let e = self.random_overlap(&mut r, &ident, first);
            self.push(&ident, Ty::Element(e));
        }
    }

    /// A struct all of whose fields are optional, which may flatten types from `first` on.
    fn random_overlap(&self, r: &mut Rng, ident: &str, first: TyId) -> Element {
        const TYS: &[&str] = &["String", "crate::canary::Canary", "u8"];
        let nss = vec![("p".to_owned(), URLS[r.below(2)].to_owned())];
        let mut fields: Vec<Field> = Vec::new();
        for i in 0..2 + r.below(5) {
            let fident = format!("f{}", i);
            let earlier = self.tys.len() - first;
            let (kind, ty) = match r.below(12) {
                0..=3 => (Kind::Attr, self.by_ident(*r.pick(TYS))),
                4..=6 => (Kind::Elem, self.by_ident(*r.pick(TYS))),
                7 if fields.iter().all(|f| f.kind != Kind::Text) => {
                    (Kind::Text, self.by_ident("String"))
                }
                _ if earlier > 0 => {
                    let ty = first + r.below(earlier);
                    if self.weight(ty) > 40 {
                        continue;
                    }
                    (Kind::Flatten, ty)
                }
                _ => (Kind::Elem, self.by_ident("String")),
            };
            let (mult, prefix, rename, name) = match kind {
                Kind::Text | Kind::Flatten => (Mult::One, None, None, Name::new("", "")),
                _ => {
                    let prefix = r.pct(30).then(|| "p".to_owned());
                    let ns = prefix.as_ref().map_or(String::new(), |_| nss[0].1.clone());
                    let local = r.pick(&["a", "b", "item"]).to_string();
                    let name = Name {
                        ns,
                        local: local.clone(),
                    };
                    if fields.iter().any(|f| f.kind == kind && f.name == name) {
                        continue;
                    }
                    let mult = match kind {
                        Kind::Elem if r.pct(50) => Mult::Many,
                        _ => Mult::Opt,
                    };
                    (mult, prefix, Some(local), name)
                }
            };
            fields.push(Field {
                ident: fident,
                kind,
                mult,
                ty,
                default: false,
                prefix,
                rename,
                name,
            });
        }
        self.random_root(r, nss, ident, Body::Struct(fields))
    }

    fn random_ws(r: &mut Rng) -> Ws {
        *r.pick(&[Ws::Preserve, Ws::Replace, Ws::Collapse])
    }

    fn random_text(&self, r: &mut Rng) -> TextTy {
        let ws = Self::random_ws(r);
        match r.below(5) {
            0 => TextTy::Std { ws },
            1 | 2 => {
                const TEXTS: &[&str] = &[
                    "small", "Small", "SMALL", "a b", "a  b", "", "é", "<&>", "1", "true", "x",
                    "\u{a0}", "a\tb",
                ];
                let mut pool: Vec<&str> = TEXTS.to_vec();
                let mut variants = Vec::new();
                let n = 1 + r.below(5);
                for i in 0..n {
                    let ident = format!("V{}", i);
                    let (text, renamed) = if r.pct(30) {
                        (ident.clone(), false)
                    } else {
                        let j = r.below(pool.len());
                        (pool.remove(j).to_owned(), true)
                    };
                    variants.push(RVariant {
                        ident,
                        text,
                        renamed,
                        unknown: false,
                    });
                }
                if r.pct(50) {
                    let at = r.below(variants.len() + 1);
                    variants.insert(
                        at,
                        RVariant {
                            ident: "Other".to_owned(),
                            text: String::new(),
                            renamed: false,
                            unknown: true,
                        },
                    );
                }
                TextTy::Restriction { ws, variants }
            }
            _ => {
                let n = 1 + r.below(4);
                let texts: Vec<TyId> = (0..self.tys.len())
                    .filter(|&i| self.text(i).is_some())
                    .collect();
                let variants = (0..n)
                    .map(|i| (format!("U{}", i), *r.pick(&texts)))
                    .collect();
                TextTy::Union { ws, variants }
            }
        }
    }

    fn random_nss(r: &mut Rng) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = Vec::new();
        for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] {
            let prefix = if r.pct(25) {
                String::new()
            } else {
                r.pick(PREFIXES).to_string()
            };
            if out.iter().any(|(p, _)| *p == prefix) {
                continue;
            }
            // Two prefixes for a URL is fine. Only the empty prefix can stand for no namespace.
            let url = if prefix.is_empty() && r.pct(15) {
                ""
            } else {
                r.pick(URLS)
            };
            out.push((prefix, url.to_owned()));
        }
        out
    }

    /// Picks a prefix and finds the namespace it means.
    fn random_prefix(r: &mut Rng, nss: &[(String, String)], xml: bool) -> (Option<String>, String) {
        if xml && r.pct(4) {
            return (Some("xml".to_owned()), XML_NS.to_owned());
        }
        if nss.is_empty() || r.pct(35) {
            let explicit = r.pct(10) && !nss.iter().any(|(p, _)| p.is_empty());
            return (explicit.then(String::new), String::new());
        }
        let (p, u) = r.pick(nss);
        (Some(p.clone()), u.clone())
    }

    fn random_names(
        r: &mut Rng,
        nss: &[(String, String)],
        ident: &str,
        taken: &[Name],
        xml: bool,
    ) -> Option<(Option<String>, Option<String>, Name)> {
        for _ in 0..20 {
            let (prefix, ns) = Self::random_prefix(r, nss, xml);
            let (rename, local) = if r.pct(60) {
                let l = r.pick(LOCALS).to_string();
                (Some(l.clone()), l)
            } else {
                (None, ident.trim_start_matches("r#").to_owned())
            };
            let name = Name { ns, local };
            if !taken.contains(&name) {
                return Some((prefix, rename, name));
            }
        }
        None
    }

    fn random_mult(r: &mut Rng) -> Mult {
        *r.pick(&[Mult::One, Mult::One, Mult::Opt, Mult::Many])
    }

    fn random_text_ty(&self, r: &mut Rng) -> TyId {
        let texts: Vec<TyId> = (0..self.tys.len())
            .filter(|&i| self.text(i).is_some())
            .collect();
        if r.pct(25) {
            self.by_ident("String")
        } else if r.pct(25) {
            self.by_ident(Prim::Canary.rust())
        } else {
            *r.pick(&texts)
        }
    }

    /// A type for an element: mostly text, else something which isn't too deep already.
    fn random_elem_ty(&self, r: &mut Rng) -> TyId {
        if r.pct(55) {
            return self.random_text_ty(r);
        }
        let elems: Vec<TyId> = (0..self.tys.len())
            .filter(|&i| self.element(i).is_some() && self.weight(i) < 30)
            .collect();
        *r.pick(&elems)
    }

    /// Approximates the size of a value.
    pub fn weight(&self, id: TyId) -> usize {
        1 + self
            .refs(id)
            .iter()
            .filter(|&&r| r != id)
            .map(|&r| self.weight(r))
            .sum::<usize>()
    }

    fn random_struct(&self, r: &mut Rng, ident: &str) -> Element {
        const IDENTS: &[&str] = &[
            "a",
            "b",
            "foo",
            "Foo",
            "item",
            "value",
            "r#type",
            "r#match",
            "_u",
            "tail_",
            "out",
            "child",
            "name",
            "writer",
            "builder",
            "element",
            "text",
            "default",
            "errors",
            "camelCase",
            "a_present",
            "a_visitor",
        ];
        let nss = Self::random_nss(r);
        let mut idents: Vec<&str> = IDENTS.to_vec();
        let mut fields: Vec<Field> = Vec::new();
        let self_id = self.tys.len();
        let overlaps_ok = r.pct(30);
        for _ in 0..[0, 1, 2, 3, 3, 4, 5, 6][r.below(8)] {
            let j = r.below(idents.len());
            let fident = idents.remove(j).to_owned();
            let kind = match r.below(20) {
                0..=6 => Kind::Attr,
                7..=15 => Kind::Elem,
                16..=18 => Kind::Flatten,
                _ => Kind::Text,
            };
            let own = |k: Kind, fields: &[Field]| -> Vec<Name> {
                fields
                    .iter()
                    .filter(|f| f.kind == k)
                    .map(|f| f.name.clone())
                    .collect()
            };
            match kind {
                Kind::Attr => {
                    let ty = self.random_text_ty(r);
                    let mult = if r.pct(50) { Mult::Opt } else { Mult::One };
                    let taken = own(Kind::Attr, &fields);
                    if let Some((prefix, rename, name)) =
                        Self::random_names(r, &nss, &fident, &taken, true)
                    {
                        let default = r.pct(30) && (mult == Mult::Opt || self.can_default(ty));
                        fields.push(Field {
                            ident: fident,
                            kind,
                            mult,
                            ty,
                            default,
                            prefix,
                            rename,
                            name,
                        });
                    }
                }
                Kind::Elem => {
                    let recursive = r.pct(5);
                    let (ty, mult) = if recursive {
                        (self_id, Mult::Many)
                    } else {
                        (self.random_elem_ty(r), Self::random_mult(r))
                    };
                    let taken = own(Kind::Elem, &fields);
                    if let Some((prefix, rename, name)) =
                        Self::random_names(r, &nss, &fident, &taken, false)
                    {
                        let default =
                            r.pct(25) && !recursive && (mult != Mult::One || self.can_default(ty));
                        fields.push(Field {
                            ident: fident,
                            kind,
                            mult,
                            ty,
                            default,
                            prefix,
                            rename,
                            name,
                        });
                    }
                }
                Kind::Flatten => {
                    let elems: Vec<TyId> = (0..self.tys.len())
                        .filter(|&i| self.element(i).is_some() && self.weight(i) < 30)
                        .collect();
                    let ty = *r.pick(&elems);
                    fields.push(Field {
                        ident: fident,
                        kind,
                        mult: Mult::One,
                        ty,
                        default: false,
                        prefix: None,
                        rename: None,
                        name: Name::new("", ""),
                    });
                }
                Kind::Text => {
                    if fields.iter().any(|f| f.kind == Kind::Text) {
                        continue;
                    }
                    fields.push(Field {
                        ident: fident,
                        kind,
                        mult: Mult::One,
                        ty: self.random_text_ty(r),
                        default: false,
                        prefix: None,
                        rename: None,
                        name: Name::new("", ""),
                    });
                }
            }
            // Most structs shouldn't have fields which shadow each other.
            if !overlaps_ok {
                let mut z = self.clone();
                z.tys.push((
                    ident.to_owned(),
                    Ty::Element(Element {
                        rename: None,
                        prefix: None,
                        name: Name::new("", ident),
                        nss: vec![],
                        body: Body::Struct(fields.clone()),
                    }),
                ));
                if !z.unambiguous(self_id) {
                    fields.pop();
                }
            }
        }
        self.random_root(r, nss, ident, Body::Struct(fields))
    }

    fn random_root(
        &self,
        r: &mut Rng,
        nss: Vec<(String, String)>,
        ident: &str,
        body: Body,
    ) -> Element {
        let (prefix, rename, name) = Self::random_names(r, &nss, ident, &[], false).unwrap();
        Element {
            rename,
            prefix,
            name,
            nss,
            body,
        }
    }

    fn random_enum(&self, r: &mut Rng, ident: &str) -> Element {
        let nss = Self::random_nss(r);
        let mut variants: Vec<Variant> = Vec::new();
        let idents = ["A", "B", "Foo", "Item", "Type", "Xy"];
        let n = 1 + r.below(5);
        for &vident in idents.iter().take(n) {
            let taken: Vec<Name> = variants
                .iter()
                .filter(|v| v.skip.is_none())
                .map(|v| v.name.clone())
                .collect();
            if let Some((prefix, rename, name)) = Self::random_names(r, &nss, vident, &taken, false)
            {
                let skip = if !variants.is_empty() && r.pct(15) {
                    Some(r.below(3) as u8)
                } else {
                    None
                };
                let ty = if skip.is_some() || r.pct(20) {
                    None
                } else {
                    Some((Self::random_mult(r), self.random_elem_ty(r)))
                };
                let (prefix, rename) = if skip.is_some() {
                    (None, None)
                } else {
                    (prefix, rename)
                };
                variants.push(Variant {
                    ident: vident.to_owned(),
                    prefix,
                    rename,
                    name,
                    ty,
                    skip,
                });
            }
        }
        self.random_root(r, nss, ident, Body::Enum(variants))
    }
}
