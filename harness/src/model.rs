//! Reference model: values of the zoo's types, what documents they correspond to, and what a
//! document should deserialize to.

use crate::schema::*;
use crate::source::Src;
use crate::xmltree::{Elem, Node};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// A text type, as its own canonical text.
    Text(TVal),
    Struct(Vec<Val>),
    Enum(usize, Option<Box<Val>>),
    Opt(Option<Box<Val>>),
    Many(Vec<Val>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TVal {
    Str(String),
    Bool(bool),
    Int(i128),
    Uint(u128),
    /// Bits; there's only one NaN.
    F32(u32),
    F64(u64),
    Canary(String),
    Std(String),
    Restriction(usize, Option<String>),
    Union(usize, Box<TVal>),
}

pub fn f32_bits(f: f32) -> u32 {
    if f.is_nan() { f32::NAN } else { f }.to_bits()
}

pub fn f64_bits(f: f64) -> u64 {
    if f.is_nan() { f64::NAN } else { f }.to_bits()
}

/// The white space normalization facet, following its definition in XML Schema.
pub fn normalize(s: &str, ws: Ws) -> String {
    let is = |c: char| matches!(c, '\t' | '\n' | '\r' | ' ');
    match ws {
        Ws::Preserve => s.to_owned(),
        Ws::Replace => s.chars().map(|c| if is(c) { ' ' } else { c }).collect(),
        Ws::Collapse => s
            .split(is)
            .filter(|w| !w.is_empty())
            .collect::<Vec<_>>()
            .join(" "),
    }
}

pub fn trim(s: &str) -> &str {
    s.trim_matches(|c| matches!(c, '\t' | '\n' | '\r' | ' '))
}

/// `[+-]?[0-9]+` within range.
pub fn parse_int(s: &str, min: i128, max: i128) -> Option<i128> {
    let s = trim(s);
    let (neg, digits) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i128 = 0;
    for b in digits.bytes() {
        let d = (b - b'0') as i128;
        v = v.checked_mul(10)?.checked_add(if neg { -d } else { d })?;
    }
    (min <= v && v <= max).then(|| v)
}

pub fn parse_uint(s: &str, max: u128) -> Option<u128> {
    let s = trim(s);
    let digits = s.strip_prefix('+').unwrap_or(s);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u128 = 0;
    for b in digits.bytes() {
        v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?;
    }
    (v <= max).then(|| v)
}

pub fn int_range(p: Prim) -> Option<(i128, i128)> {
    Some(match p {
        Prim::I8 => (i8::MIN as i128, i8::MAX as i128),
        Prim::I16 => (i16::MIN as i128, i16::MAX as i128),
        Prim::I32 => (i32::MIN as i128, i32::MAX as i128),
        Prim::I64 => (i64::MIN as i128, i64::MAX as i128),
        Prim::I128 => (i128::MIN, i128::MAX),
        _ => return None,
    })
}

pub fn uint_max(p: Prim) -> Option<u128> {
    Some(match p {
        Prim::U8 => u8::MAX as u128,
        Prim::U16 => u16::MAX as u128,
        Prim::U32 => u32::MAX as u128,
        Prim::U64 => u64::MAX as u128,
        Prim::U128 => u128::MAX,
        _ => return None,
    })
}

/// What the harness's `FromStr` rejects.
pub fn std_rejects(s: &str) -> bool {
    s.chars().any(|c| c.is_ascii_uppercase() || c == '!')
}

impl Zoo {
    /// What parsing should produce; `None` for an error.
    pub fn parse_text(&self, id: TyId, s: &str) -> Option<TVal> {
        match self.text(id).unwrap() {
            TextTy::Prim(p) => parse_prim(*p, s),
            TextTy::Std { ws } => {
                let s = normalize(s, *ws);
                (!std_rejects(&s)).then(|| TVal::Std(s))
            }
            TextTy::Restriction { ws, variants } => {
                let s = normalize(s, *ws);
                if let Some(i) = variants.iter().position(|v| !v.unknown && v.text == s) {
                    return Some(TVal::Restriction(i, None));
                }
                let i = variants.iter().position(|v| v.unknown)?;
                Some(TVal::Restriction(i, Some(s)))
            }
            TextTy::Union { ws, variants } => {
                let s = normalize(s, *ws);
                variants.iter().enumerate().find_map(|(i, (_, ty))| {
                    Some(TVal::Union(i, Box::new(self.parse_text(*ty, &s)?)))
                })
            }
        }
    }

    /// What writing should produce; `None` for an error.
    pub fn to_text(&self, id: TyId, v: &TVal) -> Option<String> {
        Some(match (v, self.text(id).unwrap()) {
            (TVal::Str(s), _) | (TVal::Std(s), _) => s.clone(),
            (TVal::Canary(s), _) => {
                if s.starts_with("unwritable") {
                    return None;
                }
                s.clone()
            }
            (TVal::Bool(b), _) => (if *b { "true" } else { "false" }).to_owned(),
            (TVal::Int(i), _) => i.to_string(),
            (TVal::Uint(i), _) => i.to_string(),
            (TVal::F32(b), _) => f32::from_bits(*b).to_string(),
            (TVal::F64(b), _) => f64::from_bits(*b).to_string(),
            (TVal::Restriction(i, t), TextTy::Restriction { variants, .. }) => match t {
                Some(t) => t.clone(),
                None => variants[*i].text.clone(),
            },
            (TVal::Union(i, v), TextTy::Union { variants, .. }) => {
                self.to_text(variants[*i].1, v)?
            }
            _ => unreachable!("{:?} isn't a {}", v, self.tys[id].0),
        })
    }

    pub fn default_text(&self, id: TyId) -> TVal {
        match self.text(id).unwrap() {
            TextTy::Prim(p) => match p {
                Prim::Str => TVal::Str(String::new()),
                Prim::Bool => TVal::Bool(false),
                Prim::F32 => TVal::F32(f32_bits(0.)),
                Prim::F64 => TVal::F64(f64_bits(0.)),
                Prim::Canary => TVal::Canary("dflt".to_owned()),
                p if int_range(*p).is_some() => TVal::Int(0),
                _ => TVal::Uint(0),
            },
            TextTy::Std { .. } => TVal::Std("std-default".to_owned()),
            TextTy::Restriction { variants, .. } => {
                TVal::Restriction(variants.iter().rposition(|v| !v.unknown).unwrap(), None)
            }
            TextTy::Union { .. } => unreachable!(),
        }
    }

    pub fn default_val(&self, id: TyId) -> Val {
        match &self.tys[id].1 {
            Ty::Text(_) => Val::Text(self.default_text(id)),
            Ty::Element(_) => Val::Struct(
                self.fields(id)
                    .unwrap()
                    .iter()
                    .map(|f| self.default_field(f))
                    .collect(),
            ),
        }
    }

    pub fn default_field(&self, f: &Field) -> Val {
        match f.mult {
            Mult::One => self.default_val(f.ty),
            Mult::Opt => Val::Opt(None),
            Mult::Many => Val::Many(vec![]),
        }
    }
}

pub fn parse_prim(p: Prim, s: &str) -> Option<TVal> {
    if let Some((min, max)) = int_range(p) {
        return parse_int(s, min, max).map(TVal::Int);
    }
    if let Some(max) = uint_max(p) {
        return parse_uint(s, max).map(TVal::Uint);
    }
    match p {
        Prim::Str => Some(TVal::Str(s.to_owned())),
        Prim::Bool => match trim(s) {
            "true" | "1" => Some(TVal::Bool(true)),
            "false" | "0" => Some(TVal::Bool(false)),
            _ => None,
        },
        Prim::F32 => trim(s).parse().ok().map(|f| TVal::F32(f32_bits(f))),
        Prim::F64 => trim(s).parse().ok().map(|f| TVal::F64(f64_bits(f))),
        Prim::Canary => (!crate::canary::rejects(s)).then(|| TVal::Canary(s.to_owned())),
        _ => unreachable!(),
    }
}

// Generation.

pub const CHARS: &[char] = &[
    'x', 'a', 'b', 'B', '1', '0', '-', '.', ' ', ' ', '\t', '\n', '\r', '&', '<', '>', '"', '\'',
    ']', '[', '!', '?', '/', ';', '#', '=', ':', 'é', 'ß', '\u{a0}', '\u{2028}', '汉', '😀', '%',
    '{', '}', '\\', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{fffd}',
];

const NASTY: &[&str] = &[
    "",
    " ",
    "  ",
    "\n",
    "\t",
    "\r",
    "\r\n",
    "]]>",
    "]]",
    "]]>]]>",
    "<![CDATA[x]]>",
    "&amp;",
    "&#10;",
    "&",
    "<",
    ">",
    "<!--",
    "-->",
    "<?x?>",
    "true",
    "1",
    "0",
    "-1",
    "+1",
    " 12 ",
    "1e5",
    "NaN",
    "inf",
    "-0",
    "bad",
    "small",
    "a b",
    "a  b",
    " a b ",
    "\u{a0}x\u{a0}",
    "a\tb",
    "a\nb",
    "127",
    "128",
    "255",
    "256",
    "V0",
    "V1",
    "Small",
    "SMALL",
    "é",
    "<&>",
    "x",
    "\u{2003}x",
];

pub fn gen_string(src: &mut Src) -> String {
    match src.weighted(&[30, 30, 36, 4]) {
        0 => {
            let n = src.small(4);
            (0..n).map(|_| *src.pick(&CHARS[..8])).collect()
        }
        1 => src.pick(NASTY).to_string(),
        2 => {
            let n = src.small(12);
            (0..n).map(|_| *src.pick(CHARS)).collect()
        }
        _ => {
            // Longer than any plausible buffer granularity.
            let unit = {
                let n = 1 + src.small(4);
                (0..n).map(|_| *src.pick(CHARS)).collect::<String>()
            };
            let n = [20, 70, 300, 1100][src.small(4)];
            unit.repeat(n)
        }
    }
}

pub fn gen_prim(src: &mut Src, p: Prim) -> TVal {
    if let Some((min, max)) = int_range(p) {
        let v = match src.below(4) {
            0 => src.small(12) as i128 - 2,
            1 => max - src.small(3) as i128,
            2 => min + src.small(3) as i128,
            _ => {
                let raw = (src.u64() as u128) << 64 | src.u64() as u128;
                (raw as i128) >> src.below(127)
            }
        };
        return TVal::Int(v.clamp(min, max));
    }
    if let Some(max) = uint_max(p) {
        let v = match src.below(3) {
            0 => src.small(12) as u128,
            1 => max - src.small(3) as u128,
            _ => {
                let raw = (src.u64() as u128) << 64 | src.u64() as u128;
                raw >> src.below(127)
            }
        };
        return TVal::Uint(v.min(max));
    }
    match p {
        Prim::Str => TVal::Str(gen_string(src)),
        Prim::Bool => TVal::Bool(src.pct(50)),
        Prim::F32 => TVal::F32(f32_bits(match src.below(4) {
            0 => src.small(10) as f32 / 4.,
            1 => *src.pick(&[
                0.,
                -0.,
                f32::INFINITY,
                f32::NEG_INFINITY,
                f32::NAN,
                f32::MAX,
                f32::MIN,
                f32::MIN_POSITIVE,
                f32::EPSILON,
                1e-45,
            ]),
            _ => f32::from_bits(src.u64() as u32),
        })),
        Prim::F64 => TVal::F64(f64_bits(match src.below(4) {
            0 => src.small(10) as f64 / 4.,
            1 => *src.pick(&[
                0.,
                -0.,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                f64::EPSILON,
                5e-324,
            ]),
            _ => f64::from_bits(src.u64()),
        })),
        Prim::Canary => {
            let s = gen_string(src);
            if crate::canary::rejects(&s) {
                TVal::Canary("good".to_owned())
            } else {
                TVal::Canary(s)
            }
        }
        _ => unreachable!(),
    }
}

impl Zoo {
    /// Generates some value of a text type, not necessarily one which its own text parses as.
    pub fn gen_text_any(&self, src: &mut Src, id: TyId) -> TVal {
        match self.text(id).unwrap() {
            TextTy::Prim(p) => gen_prim(src, *p),
            TextTy::Std { .. } => TVal::Std(gen_string(src)),
            TextTy::Restriction { variants, .. } => {
                let i = src.below(variants.len());
                let t = variants[i].unknown.then(|| gen_string(src));
                TVal::Restriction(i, t)
            }
            TextTy::Union { variants, .. } => {
                let i = src.below(variants.len());
                TVal::Union(i, Box::new(self.gen_text_any(src, variants[i].1)))
            }
        }
    }

    /// Generates a value of a text type which its own text parses as, or `None` if that's hard.
    pub fn gen_text(&self, src: &mut Src, id: TyId) -> Option<TVal> {
        for _ in 0..6 {
            let mut v = self.gen_text_any(src, id);
            // Parsing tends to reach a fixed point right away.
            for _ in 0..4 {
                let v2 = match self.to_text(id, &v).and_then(|t| self.parse_text(id, &t)) {
                    Some(v2) => v2,
                    None => break,
                };
                if v == v2 {
                    return Some(v);
                }
                v = v2;
            }
        }
        None
    }

    /// Generates a value. A faithful one is determined by the document it's written as.
    pub fn gen_val(&self, src: &mut Src, id: TyId, depth: usize, faithful: bool) -> Option<Val> {
        match &self.tys[id].1 {
            Ty::Text(_) if faithful => self.gen_text(src, id).map(Val::Text),
            Ty::Text(_) => Some(Val::Text(self.gen_text_any(src, id))),
            Ty::Element(Element {
                body: Body::Struct(fields),
                ..
            }) => Some(Val::Struct(
                fields
                    .iter()
                    .map(|f| self.gen_mult(src, f.mult, f.ty, depth, false, faithful))
                    .collect::<Option<_>>()?,
            )),
            Ty::Element(Element {
                body: Body::Enum(variants),
                ..
            }) => {
                let live: Vec<usize> = (0..variants.len())
                    .filter(|&i| variants[i].skip.is_none())
                    .collect();
                let i = *src.pick(&live);
                let inner = match variants[i].ty {
                    None => None,
                    // An empty list writes nothing, which doesn't say which variant it is.
                    Some((m, ty)) => Some(Box::new(
                        self.gen_mult(src, m, ty, depth, faithful, faithful)?,
                    )),
                };
                Some(Val::Enum(i, inner))
            }
        }
    }

    /// Makes the value one which can't be serialized, if there's a way.
    pub fn spoil(&self, src: &mut Src, id: TyId, v: &mut Val) -> bool {
        let mut n = 0;
        self.spoil_at(src, id, v, &mut n, usize::MAX);
        if n == 0 {
            return false;
        }
        let at = src.below(n);
        n = 0;
        self.spoil_at(src, id, v, &mut n, at);
        true
    }

    fn spoil_text(&self, id: TyId, v: &mut TVal, n: &mut usize, at: usize) {
        match (v, self.text(id)) {
            (TVal::Canary(s), _) => {
                if *n == at {
                    *s = "unwritable".to_owned();
                }
                *n += 1;
            }
            (TVal::Union(i, inner), Some(TextTy::Union { variants, .. })) => {
                self.spoil_text(variants[*i].1, inner, n, at)
            }
            _ => {}
        }
    }

    fn spoil_at(&self, src: &mut Src, id: TyId, v: &mut Val, n: &mut usize, at: usize) {
        match v {
            Val::Text(t) => self.spoil_text(id, t, n, at),
            Val::Opt(None) => {}
            Val::Opt(Some(v)) => self.spoil_at(src, id, v, n, at),
            Val::Many(vs) => {
                for v in vs {
                    self.spoil_at(src, id, v, n, at);
                }
            }
            Val::Struct(vs) => {
                for (f, v) in self.fields(id).unwrap().iter().zip(vs) {
                    self.spoil_at(src, f.ty, v, n, at);
                }
            }
            Val::Enum(i, inner) => {
                let variants = self.variants(id).unwrap();
                let skipped: Vec<usize> = (0..variants.len())
                    .filter(|&i| variants[i].skip.is_some())
                    .collect();
                if !skipped.is_empty() {
                    if *n == at {
                        *i = *src.pick(&skipped);
                        *inner = None;
                        *n += 1;
                        return;
                    }
                    *n += 1;
                }
                if let (Some(v), Some((_, ty))) = (inner, variants[*i].ty) {
                    self.spoil_at(src, ty, v, n, at);
                }
            }
        }
    }

    fn gen_mult(
        &self,
        src: &mut Src,
        mult: Mult,
        ty: TyId,
        depth: usize,
        nonempty: bool,
        faithful: bool,
    ) -> Option<Val> {
        let deep = depth > 5;
        Some(match mult {
            Mult::One => self.gen_val(src, ty, depth + 1, faithful)?,
            Mult::Opt => {
                if !nonempty && (deep || src.pct(40)) {
                    Val::Opt(None)
                } else {
                    Val::Opt(Some(Box::new(self.gen_val(
                        src,
                        ty,
                        depth + 1,
                        faithful,
                    )?)))
                }
            }
            Mult::Many => {
                let mut n = if deep {
                    0
                } else if depth == 0 && self.text(ty).is_some() && src.pct(2) {
                    [20, 70, 270][src.small(3)]
                } else {
                    src.small(5)
                };
                if nonempty {
                    n = n.max(1);
                }
                Val::Many(
                    (0..n)
                        .map(|_| self.gen_val(src, ty, depth + 1, faithful))
                        .collect::<Option<_>>()?,
                )
            }
        })
    }

    // Serialization.

    /// The document which serializing `v` as `name` should produce; `None` for an error.
    pub fn infoset(&self, id: TyId, v: &Val, name: &Name) -> Option<Elem> {
        let mut e = Elem::new(name.clone());
        self.fill(id, v, &mut e)?;
        Some(e)
    }

    /// As `infoset`, but where two fields write the same attribute, drops the later one.
    pub fn infoset_lenient(&self, id: TyId, v: &Val, name: &Name) -> Elem {
        let mut e = Elem::new(name.clone());
        let _ = self.fill_attrs(id, v, &mut e);
        let _ = self.fill_kids(id, v, &mut e);
        e
    }

    fn fill(&self, id: TyId, v: &Val, e: &mut Elem) -> Option<()> {
        self.fill_attrs(id, v, e)?;
        self.fill_kids(id, v, e)
    }

    fn fill_attrs(&self, id: TyId, v: &Val, e: &mut Elem) -> Option<()> {
        if let (Some(fields), Val::Struct(vals)) = (self.fields(id), v) {
            for (f, v) in fields.iter().zip(vals) {
                if f.kind == Kind::Attr {
                    let v = match v {
                        Val::Opt(None) => continue,
                        Val::Opt(Some(v)) => v,
                        v => v,
                    };
                    if let Val::Text(t) = v {
                        if e.attr(&f.name).is_some() {
                            return None; // duplicate.
                        }
                        e.attrs.push((f.name.clone(), self.to_text(f.ty, t)?));
                    }
                }
            }
            for (f, v) in fields.iter().zip(vals) {
                if f.kind == Kind::Flatten {
                    self.fill_attrs(f.ty, v, e)?;
                }
            }
        }
        Some(())
    }

    fn fill_kids(&self, id: TyId, v: &Val, e: &mut Elem) -> Option<()> {
        match v {
            Val::Text(t) => e.push_text(&self.to_text(id, t)?),
            Val::Struct(vals) => {
                let fields = self.fields(id).unwrap();
                for (f, v) in fields.iter().zip(vals) {
                    if let (Kind::Text, Val::Text(t)) = (f.kind, v) {
                        e.push_text(&self.to_text(f.ty, t)?);
                    }
                }
                for (f, v) in fields.iter().zip(vals) {
                    if f.kind == Kind::Elem {
                        self.fill_field(f.ty, v, &f.name, e)?;
                    }
                }
                for (f, v) in fields.iter().zip(vals) {
                    if f.kind == Kind::Flatten {
                        self.fill_kids(f.ty, v, e)?;
                    }
                }
            }
            Val::Enum(i, inner) => {
                let variant = &self.variants(id).unwrap()[*i];
                if variant.skip.is_some() {
                    return None;
                }
                match (inner, variant.ty) {
                    (Some(v), Some((_, ty))) => self.fill_field(ty, v, &variant.name, e)?,
                    _ => e.kids.push(Node::Elem(Elem::new(variant.name.clone()))),
                }
            }
            _ => unreachable!(),
        }
        Some(())
    }

    fn fill_field(&self, ty: TyId, v: &Val, name: &Name, e: &mut Elem) -> Option<()> {
        match v {
            Val::Opt(None) => {}
            Val::Opt(Some(v)) => e.kids.push(Node::Elem(self.infoset(ty, v, name)?)),
            Val::Many(vs) => {
                for v in vs {
                    e.kids.push(Node::Elem(self.infoset(ty, v, name)?));
                }
            }
            v => e.kids.push(Node::Elem(self.infoset(ty, v, name)?)),
        }
        Some(())
    }

    // Deserialization.

    pub fn interp(&self, id: TyId, e: &Elem, out: &mut Interp) -> Result<Val, IErr> {
        if self.text(id).is_some() {
            let mut s = String::new();
            for (i, k) in e.kids.iter().enumerate() {
                match k {
                    Node::Text(t) => s.push_str(t),
                    Node::Elem(c) => return Err(IErr::named(Why::ElementInText, &c.name).within(i)),
                }
            }
            return match self.parse_text(id, &s) {
                Some(t) => Ok(Val::Text(t)),
                None => Err(IErr::from(Fault::text(id, &s))),
            };
        }
        let mut p = Partial::new(self, id);
        // Any of the attributes at fault may be the one reported.
        let faults: Vec<Fault> = e
            .attrs
            .iter()
            .filter_map(|(n, v)| p.attr(n, v).err())
            .collect();
        if !faults.is_empty() {
            return Err(IErr {
                attrs: true,
                ..IErr::from_all(faults)
            });
        }
        for (i, k) in e.kids.iter().enumerate() {
            match k {
                Node::Text(t) => {
                    p.chars(t);
                }
                Node::Elem(c) => {
                    p.elem(c, out).map_err(|e| e.within(i))?;
                }
            }
        }
        let mut faults = Vec::new();
        p.finish(out, &mut faults)
            .ok_or_else(|| IErr::from_all(faults))
    }
}

/// Facts noticed while interpreting a document.
#[derive(Default, Debug)]
pub struct Interp {
    /// The document does something whose meaning isn't documented.
    pub unspecified: bool,
    /// Fields which took their default, an element update, or a delegation to a flattened field.
    pub defaulted: usize,
    pub updated: usize,
    pub delegated: usize,
    pub ignored: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Why {
    Text,
    ElementInText,
    MissingElement,
    MissingAttribute,
    DuplicateElement,
    DuplicateAttribute,
    OtherVariant,
    Empty,
}

/// One way in which an element is at fault.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault {
    pub why: Why,
    /// Of what's missing, duplicated, or unexpected.
    pub name: Option<Name>,
    /// What doesn't parse, and as what.
    pub text: Option<(TyId, String)>,
}

impl Fault {
    fn named(why: Why, name: &Name) -> Self {
        Fault {
            why,
            name: Some(name.clone()),
            text: None,
        }
    }

    fn text(id: TyId, s: &str) -> Self {
        Fault {
            why: Why::Text,
            name: None,
            text: Some((id, s.to_owned())),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct IErr {
    /// Of the first fault.
    pub why: Why,
    /// Any of these may be reported.
    pub faults: Vec<Fault>,
    /// Indices of the child nodes leading from the root to the current element.
    pub path: Vec<usize>,
    /// Whether the attributes are at fault.
    pub attrs: bool,
}

impl IErr {
    fn from_all(faults: Vec<Fault>) -> Self {
        IErr {
            why: faults[0].why,
            faults,
            path: Vec::new(),
            attrs: false,
        }
    }
    fn named(why: Why, name: &Name) -> Self {
        Self::from(Fault::named(why, name))
    }
    fn within(mut self, i: usize) -> Self {
        self.path.insert(0, i);
        self
    }
}

impl From<Fault> for IErr {
    fn from(f: Fault) -> Self {
        IErr::from_all(vec![f])
    }
}

/// An element type being deserialized.
struct Partial<'z> {
    zoo: &'z Zoo,
    id: TyId,
    own: Vec<Option<Val>>,
    subs: Vec<(usize, Partial<'z>)>,
    chars: String,
    /// Of an enum.
    variant: Option<(usize, Option<Val>)>,
}

impl<'z> Partial<'z> {
    fn new(zoo: &'z Zoo, id: TyId) -> Self {
        let fields = zoo.fields(id).unwrap_or(&[]);
        Partial {
            zoo,
            id,
            own: fields.iter().map(|_| None).collect(),
            subs: fields
                .iter()
                .enumerate()
                .filter(|(_, f)| f.kind == Kind::Flatten)
                .map(|(i, f)| (i, Partial::new(zoo, f.ty)))
                .collect(),
            chars: String::new(),
            variant: None,
        }
    }

    fn attr(&mut self, name: &Name, value: &str) -> Result<bool, Fault> {
        let fields = self.zoo.fields(self.id).unwrap_or(&[]);
        if let Some(i) = fields
            .iter()
            .position(|f| f.kind == Kind::Attr && f.name == *name)
        {
            if self.own[i].is_some() {
                return Err(Fault::named(Why::DuplicateAttribute, name));
            }
            let t = self
                .zoo
                .parse_text(fields[i].ty, value)
                .ok_or_else(|| Fault::text(fields[i].ty, value))?;
            self.own[i] = Some(match fields[i].mult {
                Mult::Opt => Val::Opt(Some(Box::new(Val::Text(t)))),
                _ => Val::Text(t),
            });
            return Ok(true);
        }
        for (_, s) in &mut self.subs {
            if s.attr(name, value)? {
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn update(
        zoo: &Zoo,
        slot: &mut Option<Val>,
        mult: Mult,
        ty: TyId,
        e: &Elem,
        out: &mut Interp,
    ) -> Result<(), IErr> {
        match slot {
            None => {
                let v = zoo.interp(ty, e, out)?;
                *slot = Some(match mult {
                    Mult::One => v,
                    Mult::Opt => Val::Opt(Some(Box::new(v))),
                    Mult::Many => Val::Many(vec![v]),
                });
            }
            Some(Val::Many(vs)) if mult == Mult::Many => {
                vs.push(zoo.interp(ty, e, out)?);
                out.updated += 1;
            }
            Some(_) => return Err(IErr::named(Why::DuplicateElement, &e.name)),
        }
        Ok(())
    }

    fn elem(&mut self, e: &Elem, out: &mut Interp) -> Result<bool, IErr> {
        if let Some(variants) = self.zoo.variants(self.id) {
            let i = match variants
                .iter()
                .position(|v| v.skip.is_none() && v.name == e.name)
            {
                Some(i) => i,
                None => return Ok(false),
            };
            match &mut self.variant {
                None => {
                    let mut inner = None;
                    if let Some((mult, ty)) = variants[i].ty {
                        Self::update(self.zoo, &mut inner, mult, ty, e, out)?;
                    }
                    self.variant = Some((i, inner));
                }
                Some((j, inner)) if *j == i => match variants[i].ty {
                    Some((mult, ty)) => Self::update(self.zoo, inner, mult, ty, e, out)?,
                    None => out.unspecified = true,
                },
                Some(_) => return Err(IErr::named(Why::OtherVariant, &e.name)),
            }
            return Ok(true);
        }
        let fields = self.zoo.fields(self.id).unwrap();
        if let Some(i) = fields
            .iter()
            .position(|f| f.kind == Kind::Elem && f.name == e.name)
        {
            Self::update(
                self.zoo,
                &mut self.own[i],
                fields[i].mult,
                fields[i].ty,
                e,
                out,
            )?;
            return Ok(true);
        }
        for (_, s) in &mut self.subs {
            if s.elem(e, out)? {
                out.delegated += 1;
                return Ok(true);
            }
        }
        out.ignored += 1;
        Ok(false)
    }

    fn chars(&mut self, t: &str) -> bool {
        let fields = self.zoo.fields(self.id).unwrap_or(&[]);
        if fields.iter().any(|f| f.kind == Kind::Text) {
            self.chars.push_str(t);
            return true;
        }
        self.subs.iter_mut().any(|(_, s)| s.chars(t))
    }

    /// Adds every fault, and returns a value if there are none.
    fn finish(self, out: &mut Interp, faults: &mut Vec<Fault>) -> Option<Val> {
        let zoo = self.zoo;
        if zoo.variants(self.id).is_some() {
            return match self.variant {
                Some((i, v)) => Some(Val::Enum(i, v.map(Box::new))),
                None => {
                    faults.push(Fault {
                        why: Why::Empty,
                        name: None,
                        text: None,
                    });
                    None
                }
            };
        }
        let fields = zoo.fields(self.id).unwrap();
        let mut subs = self.subs.into_iter();
        let mut vals = Vec::new();
        for (f, own) in fields.iter().zip(self.own) {
            let v = match (f.kind, own) {
                (Kind::Flatten, _) => subs.next().unwrap().1.finish(out, faults),
                (Kind::Text, _) => match zoo.parse_text(f.ty, &self.chars) {
                    Some(t) => Some(Val::Text(t)),
                    None => {
                        faults.push(Fault::text(f.ty, &self.chars));
                        None
                    }
                },
                (_, Some(v)) => Some(v),
                (_, None) if f.default => {
                    out.defaulted += 1;
                    Some(zoo.default_field(f))
                }
                (k, None) => match f.mult {
                    Mult::Opt => Some(Val::Opt(None)),
                    Mult::Many => Some(Val::Many(vec![])),
                    Mult::One => {
                        let why = if k == Kind::Attr {
                            Why::MissingAttribute
                        } else {
                            Why::MissingElement
                        };
                        faults.push(Fault::named(why, &f.name));
                        None
                    }
                },
            };
            vals.extend(v);
        }
        faults.is_empty().then(|| Val::Struct(vals))
    }
}
