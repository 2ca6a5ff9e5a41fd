//! Text: white space, and the built-in text types.

use crate::engine::{Case, Fail, Prop, R};
use crate::model::*;
use crate::schema::{Name, Prim, Ws};
use crate::source::Src;
use crate::xmltree::{self, Elem, Node, Style};
use crate::{ensure, fail};
use static_xml::de::{
    normalize, Deserialize, DeserializeAttrField, DeserializeElementField, ElementReader,
    ElementVisitor, ParseText, VisitorError, WhiteSpace,
};
use static_xml::ser::{
    ElementBuilder, ElementWriter, Serialize, SerializeAttr, SerializeField, ToText,
};
use static_xml::ExpandedNameRef;

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C11",
        level: "exploration",
        rule: "Fixed cases enumerate all strings of up to 7 characters over 7 (space, tab, LF, CR, a letter, a 2-byte and a 4-byte character), in all three modes. Random cases are longer strings with runs of white space, look-alike Unicode white space, and multi-byte characters. Non-trivial: some mode changes the string.",
        assumptions: &[],
        quick: 6_000_000,
        thorough: 10_000_000,
        run: |_, s, k| c11(s, k),
        fixed: |_| 50,
        run_fixed: |_, i, k| c11_all(i, k),
    },
    Prop {
        id: "C12",
        level: "exploration",
        rule: "Fixed cases enumerate all values of bool and of 8- and 16-bit integers, and all strings of up to 5 characters over 8 for bool and all integer types' parsers. Random cases are strings near the lexical boundary, or values, of a random built-in type, taken through plain text, attributes (mandatory and optional) and elements (mandatory, optional, repeated). Non-trivial: a value, or a string of at least one character.",
        assumptions: &[
            "whether an unsigned type accepts -0 isn't specified",
            "floating-point text is whatever Rust's standard library accepts after trimming",
        ],
        quick: 1_500_000,
        thorough: 4_000_000,
        run: |_, s, k| c12(s, k),
        fixed: |_| PRIMS_ENUM.len() * 2,
        run_fixed: |_, i, k| c12_all(i, k),
    },
];

const MODES: [(WhiteSpace, Ws); 3] = [
    (WhiteSpace::Preserve, Ws::Preserve),
    (WhiteSpace::Replace, Ws::Replace),
    (WhiteSpace::Collapse, Ws::Collapse),
];

/// Returns whether some mode changes it.
fn c11_one(s: &str) -> Result<bool, Fail> {
    let mut changed = false;
    for (real, model) in MODES {
        let want = crate::model::normalize(s, model);
        let got = normalize(s.to_owned(), real);
        if std::str::from_utf8(got.as_bytes()).is_err() {
            fail!(
                "{:?} of {:?} isn't valid UTF-8: {:?}",
                real,
                s,
                got.as_bytes()
            );
        }
        ensure!(
            got == want,
            "{:?} of {:?} is {:?} rather than {:?}",
            real,
            s,
            got,
            want
        );
        changed |= got != s;
        // It's idempotent, and a stronger mode subsumes a weaker one.
        let again = normalize(got.clone(), real);
        ensure!(
            again == got,
            "{:?} of {:?} is {:?}, of which it is {:?}",
            real,
            s,
            got,
            again
        );
    }
    // A string with room to spare and one without.
    let mut roomy = String::with_capacity(s.len() + 64);
    roomy.push_str(s);
    ensure!(
        normalize(roomy, WhiteSpace::Collapse) == crate::model::normalize(s, Ws::Collapse),
        "collapsing {:?} depends on its capacity",
        s
    );
    Ok(changed)
}

fn c11_all(i: usize, case: &mut Case) -> R {
    const A: [char; 7] = [' ', '\t', '\n', '\r', 'a', 'é', '😀'];
    // The first two characters, or the strings shorter than that.
    let max = 7;
    let start = match i {
        49 => {
            let mut s = vec![String::new()];
            s.extend(A.iter().map(|c| c.to_string()));
            for s in s {
                let c = c11_one(&s)?;
                case.also(c, &s);
            }
            return Ok(());
        }
        i => format!("{}{}", A[i / 7], A[i % 7]),
    };
    let mut stack = vec![(start, 2)];
    while let Some((s, n)) = stack.pop() {
        let c = c11_one(&s)?;
        case.also(c, &s);
        if n < max {
            for a in A {
                stack.push((format!("{}{}", s, a), n + 1));
            }
        }
    }
    case.label("enumerated a seventh of a seventh of the short strings");
    Ok(())
}

fn c11(src: &mut Src, case: &mut Case) -> R {
    const WS: [char; 4] = [' ', '\t', '\n', '\r'];
    const OTHER: &[char] = &[
        'a',
        'b',
        'é',
        '汉',
        '😀',
        '\u{a0}',
        '\u{2003}',
        '\u{3000}',
        '\u{85}',
        '\u{2028}',
        '\u{b}',
        '\u{c}',
        '\u{1f}',
        '\u{0}',
        '\u{7f}',
        '\u{200b}',
        '\u{feff}',
        '\u{10ffff}',
        '\u{109}',
        '\u{10a}',
        '\u{10d}',
        '\u{120}',
        '\u{809}',
        '\u{a20}',
    ];
    let long = src.pct(5);
    let mut s = String::new();
    for _ in 0..src.small(if long { 40 } else { 14 }) {
        let n = if long {
            1 + src.small(30) * 9
        } else {
            1 + src.small(4)
        };
        let ws = src.pct(50);
        for _ in 0..n {
            s.push(if ws { *src.pick(&WS) } else { *src.pick(OTHER) });
        }
    }
    if !s.is_empty() && src.below(1500) == 1499 {
        // About the size of some buffer.
        let n = [1_000, 4_096, 8_192, 65_536][src.small(4)] / s.len();
        s = s.repeat(1 + n);
        s.extend((0..src.below(8)).map(|_| *src.pick(&WS)));
        case.label("long");
    }
    case.key(&s);
    case.sample(|| crate::xmltree::clip(&format!("{:?}", s)));
    case.nontrivial = c11_one(&s)?;
    Ok(())
}

// The built-in types.

/// A built-in type, by way of each position it can occur in.
struct Api {
    parse: fn(&str) -> Option<TVal>,
    attr: fn(&str) -> Option<TVal>,
    attr_opt: fn(&str) -> Option<TVal>,
    elem: fn(&str) -> Option<TVal>,
    /// The text is that of an `x` child; and how many times it occurs.
    child: fn(&str) -> Option<TVal>,
    child_opt: fn(&str) -> Option<TVal>,
    child_many: fn(&str) -> Option<Vec<TVal>>,
    absent: fn() -> R,
    text: fn(&TVal) -> Result<String, String>,
    ser_elem: fn(&TVal) -> Result<String, String>,
    /// Serializes as attributes, and as child elements.
    ser_all: fn(&TVal) -> Result<String, String>,
}

trait Basic: Sized {
    fn from_t(v: &TVal) -> Self;
    fn to_t(&self) -> TVal;
}

macro_rules! basic {
    ($($t:ty, $p:pat => $b:expr, $s:ident => $v:expr;)*) => {
        $(impl Basic for $t {
            fn from_t(v: &TVal) -> Self {
                match v {
                    $p => $b,
                    _ => unreachable!(),
                }
            }
            fn to_t(&self) -> TVal {
                let $s = self;
                $v
            }
        })*
    };
}

basic! {
    String, TVal::Str(s) => s.clone(), s => TVal::Str(s.clone());
    bool, TVal::Bool(b) => *b, s => TVal::Bool(*s);
    i8, TVal::Int(i) => *i as i8, s => TVal::Int(*s as i128);
    i16, TVal::Int(i) => *i as i16, s => TVal::Int(*s as i128);
    i32, TVal::Int(i) => *i as i32, s => TVal::Int(*s as i128);
    i64, TVal::Int(i) => *i as i64, s => TVal::Int(*s as i128);
    i128, TVal::Int(i) => *i, s => TVal::Int(*s);
    u8, TVal::Uint(i) => *i as u8, s => TVal::Uint(*s as u128);
    u16, TVal::Uint(i) => *i as u16, s => TVal::Uint(*s as u128);
    u32, TVal::Uint(i) => *i as u32, s => TVal::Uint(*s as u128);
    u64, TVal::Uint(i) => *i as u64, s => TVal::Uint(*s as u128);
    u128, TVal::Uint(i) => *i, s => TVal::Uint(*s);
    f32, TVal::F32(b) => f32::from_bits(*b), s => TVal::F32(f32_bits(*s));
    f64, TVal::F64(b) => f64::from_bits(*b), s => TVal::F64(f64_bits(*s));
}

/// An element whose `x` children make up the field.
struct Holder<F>(F);

struct HolderVisitor<F>(Option<F>);

impl<F: DeserializeElementField> ElementVisitor for HolderVisitor<F> {
    fn element<'a>(
        &mut self,
        child: ElementReader<'a>,
    ) -> Result<Option<ElementReader<'a>>, VisitorError> {
        match &mut self.0 {
            None => self.0 = Some(F::init(child)?),
            Some(f) => f.update(child)?,
        }
        Ok(None)
    }
}

const X: ExpandedNameRef<'static> = ExpandedNameRef {
    namespace: "",
    local_name: "x",
};

impl<F: DeserializeElementField> Deserialize for Holder<F> {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = HolderVisitor(None);
        element.read_to(&mut v)?;
        Ok(Holder(match v.0 {
            Some(f) => f,
            None => F::missing(&X)?,
        }))
    }
}

/// Writes a value in every way.
struct Everywhere<'a, T>(&'a T, &'a Option<T>, &'a Option<T>, &'a Vec<T>);

fn nm(local_name: &'static str) -> ExpandedNameRef<'static> {
    ExpandedNameRef {
        namespace: "",
        local_name,
    }
}

impl<'a, T: ToText> Serialize for Everywhere<'a, T> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), static_xml::ser::Error> {
        SerializeAttr::write(self.0, b, nm("one"))?;
        SerializeAttr::write(self.1, b, nm("opt"))?;
        SerializeAttr::write(self.2, b, nm("none"))
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), static_xml::ser::Error> {
        SerializeField::write(self.0, w, nm("one"))?;
        SerializeField::write(self.1, w, nm("opt"))?;
        SerializeField::write(self.2, w, nm("none"))?;
        SerializeField::write(self.3, w, nm("many"))
    }
}

fn doc_of(n: usize, text: &str) -> String {
    let mut e = Elem::new(Name::new("", "r"));
    if n == 0 {
        e.push_text(text);
    }
    for _ in 0..n {
        let mut c = Elem::new(Name::new("", "x"));
        c.push_text(text);
        e.kids.push(Node::Elem(c));
    }
    xmltree::render(&mut Src::replay(vec![]), &e, Style::PLAIN).text
}

fn read<D: Deserialize>(doc: String) -> Option<D> {
    static_xml::read::<_, D>(doc.as_bytes()).ok()
}

fn api<T: Basic + ParseText + ToText>() -> Api {
    Api {
        parse: |s| T::parse(s.to_owned()).ok().map(|v| v.to_t()),
        attr: |s| {
            <T as DeserializeAttrField>::init(s.to_owned())
                .ok()
                .map(|v| v.to_t())
        },
        attr_opt: |s| {
            <Option<T> as DeserializeAttrField>::init(s.to_owned())
                .ok()
                .map(|v| v.expect("an attribute which is present").to_t())
        },
        elem: |s| read::<T>(doc_of(0, s)).map(|v| v.to_t()),
        child: |s| read::<Holder<T>>(doc_of(1, s)).map(|v| v.0.to_t()),
        child_opt: |s| {
            read::<Holder<Option<T>>>(doc_of(1, s))
                .map(|v| v.0.expect("an element which is present").to_t())
        },
        child_many: |s| {
            read::<Holder<Vec<T>>>(doc_of(3, s)).map(|v| v.0.iter().map(T::to_t).collect())
        },
        absent: || {
            let e = "<r/>";
            ensure!(
                read::<Holder<T>>(e.to_owned()).is_none(),
                "a mandatory element may be absent"
            );
            ensure!(
                matches!(read::<Holder<Option<T>>>(e.to_owned()), Some(Holder(None))),
                "an optional element must be present"
            );
            ensure!(
                matches!(read::<Holder<Vec<T>>>(e.to_owned()), Some(Holder(v)) if v.is_empty()),
                "a repeated element must be present"
            );
            ensure!(
                <T as DeserializeAttrField>::missing(&X).is_err(),
                "a mandatory attribute may be absent"
            );
            ensure!(
                matches!(<Option<T> as DeserializeAttrField>::missing(&X), Ok(None)),
                "an optional attribute must be present"
            );
            // Repeating one which isn't meant to be.
            for text in ["1", "0"] {
                let twice = doc_of(2, text);
                ensure!(
                    read::<Holder<T>>(twice.clone()).is_none(),
                    "a mandatory element may be repeated"
                );
                ensure!(
                    read::<Holder<Option<T>>>(twice).is_none(),
                    "an optional element may be repeated"
                );
            }
            Ok(())
        },
        text: |v| T::from_t(v).to_text().map_err(|e| e.to_string()),
        ser_elem: |v| {
            static_xml::serialize_with_name(&T::from_t(v), nm("x"))
                .to_string()
                .map_err(|e| e.to_string())
        },
        ser_all: |v| {
            let e = Everywhere(
                &T::from_t(v),
                &Some(T::from_t(v)),
                &None,
                &vec![T::from_t(v), T::from_t(v)],
            );
            static_xml::serialize_with_name(&e, nm("r"))
                .to_string()
                .map_err(|e| e.to_string())
        },
    }
}

fn api_of(p: Prim) -> Api {
    match p {
        Prim::Str | Prim::Canary => api::<String>(),
        Prim::Bool => api::<bool>(),
        Prim::I8 => api::<i8>(),
        Prim::U8 => api::<u8>(),
        Prim::I16 => api::<i16>(),
        Prim::U16 => api::<u16>(),
        Prim::I32 => api::<i32>(),
        Prim::U32 => api::<u32>(),
        Prim::I64 => api::<i64>(),
        Prim::U64 => api::<u64>(),
        Prim::I128 => api::<i128>(),
        Prim::U128 => api::<u128>(),
        Prim::F32 => api::<f32>(),
        Prim::F64 => api::<f64>(),
    }
}

/// Whether it's the one thing about integers which isn't specified.
fn negative_zero(p: Prim, s: &str) -> bool {
    let t = trim(s);
    uint_max(p).is_some() && t.len() > 1 && t.starts_with('-') && t[1..].bytes().all(|b| b == b'0')
}

fn check_text(p: Prim, a: &Api, s: &str, everywhere: bool) -> R {
    if negative_zero(p, s) {
        return Ok(());
    }
    let want = parse_prim(p, s);
    let check = |how: &str, got: Option<TVal>| -> R {
        if got != want {
            fail!(
                "{} {:?} as {} is {:?} rather than {:?}",
                p.rust(),
                s,
                how,
                got,
                want
            );
        }
        Ok(())
    };
    check("plain text", (a.parse)(s))?;
    if everywhere {
        check("an attribute", (a.attr)(s))?;
        check("an optional attribute", (a.attr_opt)(s))?;
        check("the root element", (a.elem)(s))?;
        check("an element", (a.child)(s))?;
        check("an optional element", (a.child_opt)(s))?;
        let many = (a.child_many)(s);
        ensure!(
            many == want.as_ref().map(|w| vec![w.clone(); 3]),
            "{} {:?} as three elements is {:?}",
            p.rust(),
            s,
            many
        );
    }
    Ok(())
}

fn check_value(p: Prim, a: &Api, v: &TVal) -> R {
    let msg = |what: String| Fail {
        msg: format!("{} {:?}: {}", p.rust(), v, what),
    };
    let text = (a.text)(v).map_err(msg)?;
    match v {
        TVal::Str(s) => ensure!(text == *s, "{:?} is written as {:?}", s, text),
        TVal::Bool(b) => ensure!(
            text == if *b { "true" } else { "false" },
            "{} is written as {:?}",
            b,
            text
        ),
        TVal::Int(i) => ensure!(text == i.to_string(), "{} is written as {:?}", i, text),
        TVal::Uint(i) => ensure!(text == i.to_string(), "{} is written as {:?}", i, text),
        _ => {}
    }
    ensure!(
        parse_prim(p, &text).as_ref() == Some(v),
        "{} {:?} is written as {:?}, which is something else",
        p.rust(),
        v,
        text
    );
    check_text(p, a, &text, true)?;
    // As elements and attributes.
    let doc = (a.ser_elem)(v).map_err(msg)?;
    let tree = xmltree::parse(&doc).map_err(msg)?;
    let mut want = Elem::new(Name::new("", "x"));
    want.push_text(&text);
    ensure!(
        tree.canonical() == want,
        "{} {:?} is written as the element {:?}",
        p.rust(),
        v,
        doc
    );
    let doc = (a.ser_all)(v).map_err(msg)?;
    let tree = xmltree::parse(&doc).map_err(msg)?;
    let mut all = Elem::new(Name::new("", "r"));
    for n in ["one", "opt"] {
        all.attrs.push((Name::new("", n), text.clone()));
    }
    for n in ["one", "opt", "many", "many"] {
        let mut c = want.clone();
        c.name.local = n.to_owned();
        all.kids.push(Node::Elem(c));
    }
    ensure!(
        tree.canonical() == all.canonical(),
        "{} {:?} is written as {:?}",
        p.rust(),
        v,
        doc
    );
    Ok(())
}

const PRIMS: &[Prim] = &[
    Prim::Str,
    Prim::Bool,
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
    Prim::I128,
    Prim::U128,
    Prim::F32,
    Prim::F64,
];

/// The exact decimal expansion of n / 2^k.
fn decimal(n: u128, k: usize) -> String {
    let mut int: Vec<u8> = n.to_string().bytes().map(|b| b - b'0').collect();
    let point = int.len();
    for _ in 0..k {
        let mut rem = 0;
        for d in int.iter_mut() {
            let x = rem * 10 + *d;
            *d = x / 2;
            rem = x % 2;
        }
        if rem == 1 {
            int.push(5);
        }
    }
    let text = |d: &[u8]| d.iter().map(|d| (d + b'0') as char).collect::<String>();
    let whole = text(&int[..point]);
    let whole = whole.trim_start_matches('0');
    format!(
        "{}.{}",
        if whole.is_empty() { "0" } else { whole },
        text(&int[point..])
    )
}

/// A decimal on, or a hair's breadth from, the point halfway between two adjacent floats of type
/// `p`, so that a detour through another precision rounds it the wrong way.
fn near_midpoint(src: &mut Src, p: Prim) -> String {
    let bits = if p == Prim::F32 { 24 } else { 53 };
    let m = (1u128 << (bits - 1))
        | match src.below(3) {
            0 => src.small(8) as u128,
            _ => src.u64() as u128 & ((1 << (bits - 1)) - 1),
        };
    let k = src.below(100);
    let mut s = decimal(2 * m + 1, k);
    match src.below(5) {
        0 => {}
        1 | 2 => {
            // Just above.
            s.push_str(&"0".repeat(src.small(20)));
            s.push(*src.pick(&['1', '4', '9']));
        }
        _ => {
            // Just below: the last digit is 5 unless there's no fraction.
            match s.pop() {
                Some('5') => s.push_str("4999"),
                Some(c) => {
                    s.push(c);
                    s = s.trim_end_matches('.').to_owned();
                    let last = s.pop().unwrap_or('1');
                    s.push(if last == '0' {
                        '0'
                    } else {
                        (last as u8 - 1) as char
                    });
                    s.push_str(".999");
                }
                None => {}
            }
            s.push_str(&"9".repeat(src.small(20)));
        }
    }
    if src.pct(30) {
        s.insert(0, '-');
    }
    if src.pct(20) {
        s.push_str(&format!("e{}", src.below(61) as i32 - 30));
    }
    s
}

/// The text of something numeric, or nearly so.
fn near_number(src: &mut Src, p: Prim) -> String {
    if matches!(p, Prim::F32 | Prim::F64) && src.pct(40) {
        return near_midpoint(src, p);
    }
    let mut s = match gen_prim(src, p) {
        TVal::Int(i) => match src.below(3) {
            0 => i.to_string(),
            // Just outside, perhaps.
            1 => i.saturating_add(1 + src.small(4) as i128).to_string(),
            _ => i.saturating_sub(1 + src.small(4) as i128).to_string(),
        },
        TVal::Uint(i) => match src.below(3) {
            0 => i.to_string(),
            1 => i.saturating_add(1 + src.small(4) as u128).to_string(),
            _ => format!("-{}", i),
        },
        TVal::F32(b) => format!("{:?}", f32::from_bits(b)),
        TVal::F64(b) => format!("{:e}", f64::from_bits(b)),
        TVal::Bool(b) => b.to_string(),
        _ => gen_string(src),
    };
    if p == Prim::Bool {
        s = src
            .pick(&[
                "true", "false", "1", "0", "True", "FALSE", "yes", "2", "tru", "truee", "01", "10",
            ])
            .to_string();
    }
    for _ in 0..src.small(4) {
        match src.below(8) {
            0 => s.insert(0, *src.pick(&['+', '-', '0', ' ', '\t', '\n', '\r'])),
            1 => s.push(*src.pick(&['0', '9', '.', 'e', ' ', '\t', '\n', '\r'])),
            2 => s.insert(
                0,
                *src.pick(&['\u{a0}', '\u{2003}', '\u{b}', '\u{c}', '\u{85}', '_']),
            ),
            3 => s.push(*src.pick(&['\u{a0}', '\u{2003}', '\u{3000}', '\u{c}', '_', 'f', 'u'])),
            4 => s = format!("  {}\n\t", s),
            5 => s = format!("{}{}", "0".repeat(src.small(50)), s),
            6 => {
                let n = src.below(s.chars().count() + 1);
                let at = s.char_indices().nth(n).map_or(s.len(), |(i, _)| i);
                s.insert(
                    at,
                    *src.pick(&['_', ' ', ',', '٣', '1', '.', '-', 'é', '\0']),
                );
            }
            _ => s = s.to_uppercase(),
        }
    }
    s
}

fn xml_chars(s: &str) -> bool {
    s.chars()
        .all(|c| matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{fffd}' | '\u{10000}'..))
}

fn c12(src: &mut Src, case: &mut Case) -> R {
    let p = *src.pick(PRIMS);
    let a = api_of(p);
    if src.pct(50) {
        let v = gen_prim(src, p);
        case.key((p.rust(), format!("{:?}", v)));
        case.label("value");
        case.nontrivial = true;
        case.sample(|| format!("{} value {:?}", p.rust(), v));
        if p == Prim::Str {
            if let TVal::Str(s) = &v {
                let t = ToText::to_text(&s.as_str()).map_err(|e| Fail { msg: e.to_string() })?;
                ensure!(t == *s, "&str {:?} is written as {:?}", s, t);
            }
        }
        check_value(p, &a, &v)
    } else {
        let s = if src.pct(15) {
            gen_string(src)
        } else {
            near_number(src, p)
        };
        case.key((p.rust(), &s));
        case.nontrivial = !s.is_empty();
        case.label(if parse_prim(p, &s).is_some() {
            "valid text"
        } else {
            "invalid text"
        });
        case.sample(|| format!("{} text {:?}", p.rust(), s));
        check_text(p, &a, &s, xml_chars(&s))
    }
}

const PRIMS_ENUM: &[Prim] = &[
    Prim::Bool,
    Prim::I8,
    Prim::U8,
    Prim::I16,
    Prim::U16,
    Prim::I32,
    Prim::U32,
    Prim::I64,
    Prim::U64,
    Prim::I128,
    Prim::U128,
    Prim::Str,
    Prim::F32,
    Prim::F64,
];

fn c12_all(i: usize, case: &mut Case) -> R {
    let p = PRIMS_ENUM[i / 2];
    let a = api_of(p);
    if i % 2 == 0 {
        (a.absent)()?;
        let vals: Vec<TVal> = match p {
            Prim::Bool => vec![TVal::Bool(false), TVal::Bool(true)],
            Prim::I8 => (-128..128).map(TVal::Int).collect(),
            Prim::I16 => (-32768..32768).map(TVal::Int).collect(),
            Prim::U8 => (0..256).map(TVal::Uint).collect(),
            Prim::U16 => (0..65536).map(TVal::Uint).collect(),
            _ => vec![],
        };
        for v in vals {
            check_value(p, &a, &v)?;
            case.also(true, (p.rust(), format!("{:?}", v)));
        }
        // Just outside the range.
        if let Some((min, max)) = int_range(p) {
            for d in 0..40 {
                for n in [max.wrapping_add(d), min.wrapping_sub(d)] {
                    check_text(p, &a, &n.to_string(), false)?;
                }
            }
        }
        return Ok(());
    }
    const A: [&str; 8] = ["0", "1", "2", "5", "-", "+", " ", "\t"];
    let mut todo = vec![(String::new(), 0)];
    while let Some((s, n)) = todo.pop() {
        check_text(p, &a, &s, n < 3)?;
        case.also(n > 0, (p.rust(), &s));
        if n < 5 {
            for c in A {
                todo.push((format!("{}{}", s, c), n + 1));
            }
        }
    }
    Ok(())
}
