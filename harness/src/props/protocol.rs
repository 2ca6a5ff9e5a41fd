//! Hand-written types as fields and variants of derived ones.

use crate::engine::{Case, Ctx, Prop, R};
use crate::props::probes::{Choice, Flat, Inner, Other, Outer};
use crate::props::visitor::{
    carry_out, clear_log, events, gen_act, gen_text, gen_tree, log, present, same, why, Act,
    Expect, Log, Planned, Why, LOG,
};
use crate::schema::Name;
use crate::source::Src;
use crate::xmltree::{self, render, Elem, Node, Placed, Style};
use crate::{ensure, fail};
use static_xml::de::{
    Deserialize, DeserializeAttrField, DeserializeElementField, ElementReader, ParseText,
    VisitorError,
};
use static_xml::ser::{
    self, ElementBuilder, ElementWriter, Serialize, SerializeAttr, SerializeField, ToText,
};
use static_xml::ExpandedNameRef;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::{self, Debug};

pub const PROPS: &[Prop] = &[Prop {
    id: "C19",
    level: "exploration",
    rule: "A case is a random document for one of the derived types below, whose fields and variants are types with hand-written implementations of each of the traits, and a random script of what each call of those does: reads its element with a tree of visitors, reads it as a derived type, leaves it, swallows an error or fails. What's read is then written, with a script of what each hand-written type writes, or that it fails. Oracle: the calls, their arguments, their results' whereabouts and the output predicted from the type's description and the script. Non-trivial: at least three hand-written implementations were called on reading, one of them after another had left its element unread, swallowed an error, or was called for a further element.",
    assumptions: &[
        "the order of calls for absent fields, and of those for attributes on writing, isn't specified",
        "it isn't specified what's called for an element in excess of the one allowed, which is an error in any case",
    ],
    quick: 400_000,
    thorough: 8_000_000,
    run: c19,
    fixed: crate::engine::no_fixed,
    run_fixed: crate::engine::no_run_fixed,
}];

// The script.

/// What a call which is given an element does.
#[derive(Clone, Debug)]
struct Step {
    /// Fail at once.
    before: Option<u32>,
    how: How,
    swallow: bool,
    /// Fail after dealing with the element.
    after: Option<u32>,
}

#[derive(Clone, Debug)]
enum How {
    Act(Act),
    /// Read it as this derived type, whose value is dropped.
    Inner,
}

/// What a value writes.
#[derive(Clone, Debug)]
enum Piece {
    Elem(String, Option<String>),
    Text(String),
    Fail(u32),
}

thread_local! {
    static STEPS: RefCell<VecDeque<Step>> = Default::default();
    /// Which calls of `missing` fail, by type.
    static MISSING: RefCell<BTreeMap<String, u32>> = Default::default();
    /// What each value writes, by what it's called.
    static WRITES: RefCell<BTreeMap<String, Vec<Piece>>> = Default::default();
    static CALLS: Cell<u32> = Default::default();
}

fn next() -> u32 {
    CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    })
}

fn planned(id: u32) -> VisitorError {
    VisitorError::Wrap(Box::new(Planned(id)))
}

fn show_name(n: &ExpandedNameRef<'_>) -> String {
    format!("{{{}}}{}", n.namespace, n.local_name)
}

/// Carries out the next step.
fn step(what: String, element: ElementReader<'_>) -> Result<u32, VisitorError> {
    let token = next();
    log(Log::Call(what));
    log(present(&element));
    let s = match STEPS.with(|s| s.borrow_mut().pop_front()) {
        Some(s) => s,
        // The log says that this call wasn't expected.
        None => return Ok(token),
    };
    if let Some(id) = s.before {
        return Err(planned(id));
    }
    let r = match &s.how {
        How::Act(a) => carry_out(a, element, &mut None).map(|_| ()),
        How::Inner => Inner::deserialize(element).map(|i| log(Log::Value(format!("{:?}", i)))),
    };
    match r {
        Ok(()) => {}
        Err(e) if s.swallow => log(Log::Failed(why(&e))),
        Err(e) => return Err(e),
    }
    match s.after {
        Some(id) => Err(planned(id)),
        None => Ok(token),
    }
}

fn missing(what: String, expected: &ExpandedNameRef<'_>) -> Result<u32, VisitorError> {
    log(Log::AnyOrder(format!(
        "{}.missing({})",
        what,
        show_name(expected)
    )));
    match MISSING.with(|m| m.borrow().get(&what).copied()) {
        Some(id) => Err(planned(id)),
        None => Ok(0),
    }
}

/// Text starting with this is what the hand-written types reject.
const REJECT: &str = "reject";

/// What a type makes of text.
fn digest(text: &str) -> Result<u32, u32> {
    let mut h = 2166136261u32;
    for b in text.bytes() {
        h = (h ^ b as u32).wrapping_mul(16777619);
    }
    let h = 3_000_000 + h % 1_000_000_000;
    if text.starts_with(REJECT) {
        Err(h)
    } else {
        Ok(h)
    }
}

fn pieces(of: String) -> Vec<Piece> {
    WRITES.with(|w| w.borrow().get(&of).cloned().unwrap_or_default())
}

fn refuse(id: u32) -> ser::Error {
    ser::Error(refusal(id))
}

fn refusal(id: u32) -> String {
    format!("refusal {}.", id)
}

// The hand-written types.

const DEFAULT: u32 = 1_000_000;

/// As an element field.
pub struct P<const N: usize>(Vec<u32>);
/// As an attribute.
pub struct A<const N: usize>(u32);
/// An element's content.
pub struct V<const N: usize>(u32);
/// Text.
pub struct X<const N: usize>(u32);

impl<const N: usize> Debug for P<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "P{}{:?}", N, self.0)
    }
}

impl<const N: usize> Default for P<N> {
    fn default() -> Self {
        P(vec![DEFAULT])
    }
}

impl<const N: usize> DeserializeElementField for P<N> {
    fn init(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(P(vec![step(format!("P{}.init", N), element)?]))
    }

    fn update(&mut self, element: ElementReader<'_>) -> Result<(), VisitorError> {
        let t = step(format!("{:?}.update", self), element)?;
        self.0.push(t);
        Ok(())
    }

    fn missing(expected: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(P(vec![missing(format!("P{}", N), expected)?]))
    }
}

fn write_pieces<'a>(
    of: String,
    name: ExpandedNameRef<'a>,
    to: &mut ElementWriter<'a>,
) -> Result<(), ser::Error> {
    for p in pieces(of) {
        match p {
            Piece::Elem(text, attr) => {
                let mut b = to.element(name);
                if let Some(a) = attr {
                    b.attribute(
                        ExpandedNameRef {
                            namespace: "",
                            local_name: "own",
                        },
                        a,
                    )?;
                }
                let mut w = b.start()?;
                w.text(&text)?;
                w.finish()?;
            }
            Piece::Text(text) => to.text(&text)?,
            Piece::Fail(id) => return Err(refuse(id)),
        }
    }
    Ok(())
}

impl<const N: usize> SerializeField for P<N> {
    fn write<'a>(
        &self,
        parent: &mut ElementWriter<'a>,
        name: ExpandedNameRef<'a>,
    ) -> Result<(), ser::Error> {
        log(Log::Call(format!("{:?}.write({})", self, show_name(&name))));
        write_pieces(format!("{:?}", self), name, parent)
    }
}

impl<const N: usize> Debug for A<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "A{}({})", N, self.0)
    }
}

impl<const N: usize> Default for A<N> {
    fn default() -> Self {
        A(DEFAULT)
    }
}

impl<const N: usize> DeserializeAttrField for A<N> {
    fn init(value: String) -> Result<Self, VisitorError> {
        log(Log::Call(format!("A{}.init({:?})", N, value)));
        Ok(A(digest(&value).map_err(planned)?))
    }

    fn missing(expected: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(A(missing(format!("A{}", N), expected)?))
    }
}

impl<const N: usize> SerializeAttr for A<N> {
    fn write<'a>(
        &self,
        builder: &mut ElementBuilder<'a>,
        name: ExpandedNameRef<'a>,
    ) -> Result<(), ser::Error> {
        log(Log::AnyOrder(format!(
            "{:?}.write({})",
            self,
            show_name(&name)
        )));
        for p in pieces(format!("{:?}", self)) {
            match p {
                Piece::Text(t) => builder.attribute(name, t)?,
                Piece::Fail(id) => return Err(refuse(id)),
                Piece::Elem(..) => {}
            }
        }
        Ok(())
    }
}

impl<const N: usize> Debug for V<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "V{}({})", N, self.0)
    }
}

impl<const N: usize> Default for V<N> {
    fn default() -> Self {
        V(DEFAULT)
    }
}

impl<const N: usize> Deserialize for V<N> {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(V(step(format!("V{}.deserialize", N), element)?))
    }
}

impl<const N: usize> Serialize for V<N> {
    fn write_attributes(&self, element: &mut ElementBuilder) -> Result<(), ser::Error> {
        log(Log::Call(format!("{:?}.write_attributes", self)));
        for p in pieces(format!("{:?}@", self)) {
            match p {
                Piece::Text(t) => element.attribute(
                    ExpandedNameRef {
                        namespace: "",
                        local_name: "own",
                    },
                    t,
                )?,
                Piece::Fail(id) => return Err(refuse(id)),
                Piece::Elem(..) => {}
            }
        }
        Ok(())
    }

    fn write_children(&self, element: &mut ElementWriter) -> Result<(), ser::Error> {
        log(Log::Call(format!("{:?}.write_children", self)));
        let name = ExpandedNameRef {
            namespace: "",
            local_name: "kid",
        };
        write_pieces(format!("{:?}", self), name, element)
    }
}

impl<const N: usize> Debug for X<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "X{}({})", N, self.0)
    }
}

impl<const N: usize> Default for X<N> {
    fn default() -> Self {
        X(DEFAULT)
    }
}

impl<const N: usize> ParseText for X<N> {
    fn parse(text: String) -> Result<Self, crate::Boxed> {
        // A text field takes its turn among those which are absent.
        log(Log::AnyOrder(format!("X{}.parse({:?})", N, text)));
        Ok(X(
            digest(&text).map_err(|id| -> crate::Boxed { Box::new(Planned(id)) })?
        ))
    }
}

impl<const N: usize> ToText for X<N> {
    fn to_text(&self) -> Result<String, ser::Error> {
        // Among attributes it takes its turn in any order.
        log(Log::AnyOrder(format!("{:?}.to_text", self)));
        let mut s = String::new();
        for p in pieces(format!("{:?}", self)) {
            match p {
                Piece::Text(t) => s.push_str(&t),
                Piece::Fail(id) => return Err(refuse(id)),
                Piece::Elem(..) => {}
            }
        }
        Ok(s)
    }
}

// What they look like to the model.

struct D {
    ident: &'static str,
    root: Name,
    body: Body,
}

enum Body {
    Struct(Vec<F>),
    Enum(Vec<(&'static str, Name, Option<K>)>),
}

struct F {
    ident: &'static str,
    name: Name,
    kind: K,
    default: bool,
}

#[derive(Clone, Copy)]
enum K {
    AttrA(usize),
    AttrX(usize, Mult),
    P(usize),
    El(El, Mult),
    Text(usize),
    Flatten(usize),
}

#[derive(Clone, Copy)]
enum El {
    V(usize),
    X(usize),
    D(usize),
}

#[derive(Clone, Copy, PartialEq)]
enum Mult {
    One,
    Opt,
    Many,
}

const OUTER: usize = 0;
const FLAT: usize = 1;
const DEEPER: usize = 2;
const INNER: usize = 3;
const CHOICE: usize = 4;
const INSIDE: usize = 5;
const OTHER: usize = 6;

/// What the model makes of a name as written in an attribute.
fn n(prefixed: &str) -> Name {
    match prefixed.split_once(':') {
        Some(("q" | "c", l)) => Name::new("urn:q", l),
        Some((_, l)) => Name::new("urn:p", l),
        None => Name::new("", prefixed),
    }
}

fn f(ident: &'static str, name: &str, kind: K) -> F {
    F {
        ident,
        name: n(name),
        kind,
        default: false,
    }
}

fn fd(ident: &'static str, name: &str, kind: K) -> F {
    F {
        default: true,
        ..f(ident, name, kind)
    }
}

fn descriptions() -> Vec<D> {
    use Mult::*;
    use K::P;
    vec![
        D {
            ident: "Outer",
            root: n("Outer"),
            body: Body::Struct(vec![
                f("a0", "a0", K::AttrA(0)),
                f("f0", "", K::Flatten(FLAT)),
                f("a1", "p:a", K::AttrA(1)),
                fd("a2", "q:a", K::AttrA(2)),
                f("x0", "x0", K::AttrX(0, One)),
                f("x1", "x1", K::AttrX(1, Opt)),
                f("e0", "e0", P(0)),
                f("e1", "p:e", P(1)),
                fd("e2", "q:e", P(2)),
                f("v0", "v0", K::El(El::V(0), One)),
                f("v1", "p:v", K::El(El::V(1), Opt)),
                f("v2", "q:v", K::El(El::V(2), Many)),
                fd("v3", "v3", K::El(El::V(3), One)),
                f("x2", "x2", K::El(El::X(2), Opt)),
                f("x3", "x3", K::El(El::X(3), Many)),
                f("text", "", K::Text(4)),
                f("inner", "inner", K::El(El::D(INNER), Many)),
                f("outer", "p:outer", K::El(El::D(OUTER), Many)),
                f("choice", "", K::Flatten(CHOICE)),
                f("other", "", K::Flatten(OTHER)),
            ]),
        },
        D {
            ident: "Flat",
            root: n("Flat"),
            body: Body::Struct(vec![
                f("a3", "a3", K::AttrA(3)),
                f("e3", "e3", P(3)),
                f("e4", "z:e3", P(4)),
                f("v4", "v4", K::El(El::V(4), Opt)),
                f("v5", "z:v", K::El(El::V(5), Many)),
                f("deeper", "", K::Flatten(DEEPER)),
            ]),
        },
        D {
            ident: "Deeper",
            root: n("Deeper"),
            body: Body::Struct(vec![
                fd("a4", "a4", K::AttrA(4)),
                f("e5", "e5", P(5)),
                f("text", "", K::Text(5)),
            ]),
        },
        D {
            ident: "Inner",
            root: n("Inner"),
            body: Body::Struct(vec![
                f("a5", "i:a", K::AttrA(5)),
                f("e6", "e6", P(6)),
                f("v6", "i:v", K::El(El::V(6), Many)),
                f("choice", "", K::Flatten(CHOICE)),
                f("text", "", K::Text(6)),
            ]),
        },
        D {
            ident: "Choice",
            root: n("Choice"),
            body: Body::Enum(vec![
                ("First", n("First"), Some(P(7))),
                ("Second", n("c:second"), Some(K::El(El::V(7), Many))),
                ("Third", n("Third"), Some(K::El(El::V(8), Opt))),
                ("Fourth", n("Fourth"), None),
                ("Fifth", n("c:fifth"), Some(K::El(El::X(7), One))),
                ("Sixth", n("Sixth"), Some(K::El(El::D(INSIDE), One))),
            ]),
        },
        D {
            ident: "Inside",
            root: n("Inside"),
            body: Body::Struct(vec![
                f("e8", "e8", P(8)),
                f("v9", "v9", K::El(El::V(9), Many)),
            ]),
        },
        D {
            ident: "Other",
            root: n("Other"),
            body: Body::Enum(vec![
                ("Otherwise", n("Otherwise"), Some(P(9))),
                (
                    "Alternatively",
                    n("Alternatively"),
                    Some(K::El(El::V(10), One)),
                ),
            ]),
        },
    ]
}

/// A value.
#[derive(Clone)]
enum Mv {
    P(usize, Vec<u32>),
    A(usize, u32),
    V(usize, u32),
    X(usize, u32),
    Opt(Option<Box<Mv>>),
    Many(Vec<Mv>),
    Struct(usize, Vec<Mv>),
    Enum(usize, usize, Option<Box<Mv>>),
}

fn show(ds: &[D], v: &Mv, out: &mut String) {
    use fmt::Write;
    let _ = match v {
        Mv::P(n, t) => write!(out, "P{}{:?}", n, t),
        Mv::A(n, t) => write!(out, "A{}({})", n, t),
        Mv::V(n, t) => write!(out, "V{}({})", n, t),
        Mv::X(n, t) => write!(out, "X{}({})", n, t),
        Mv::Opt(None) => write!(out, "None"),
        Mv::Opt(Some(v)) => {
            out.push_str("Some(");
            show(ds, v, out);
            write!(out, ")")
        }
        Mv::Many(vs) => {
            out.push('[');
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                show(ds, v, out);
            }
            write!(out, "]")
        }
        Mv::Struct(d, vs) => {
            let fields = match &ds[*d].body {
                Body::Struct(f) => f,
                _ => unreachable!(),
            };
            let _ = write!(out, "{} {{ ", ds[*d].ident);
            for (i, (f, v)) in fields.iter().zip(vs).enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                let _ = write!(out, "{}: ", f.ident);
                show(ds, v, out);
            }
            write!(out, " }}")
        }
        Mv::Enum(d, i, v) => {
            let variants = match &ds[*d].body {
                Body::Enum(v) => v,
                _ => unreachable!(),
            };
            out.push_str(variants[*i].0);
            match v {
                Some(v) => {
                    out.push('(');
                    show(ds, v, out);
                    write!(out, ")")
                }
                None => Ok(()),
            }
        }
    };
}

fn shown(ds: &[D], v: &Mv) -> String {
    let mut s = String::new();
    show(ds, v, &mut s);
    s
}

// Reading.

/// Why reading fails: any of these may be reported.
struct Failure {
    whys: Vec<Why>,
    /// Calls which weren't predicted may follow the ones which were.
    open: bool,
}

impl From<Why> for Failure {
    fn from(w: Why) -> Self {
        Failure {
            whys: vec![w],
            open: false,
        }
    }
}

/// For an element in excess.
fn excess() -> Failure {
    Failure {
        whys: vec![Why::Library],
        open: true,
    }
}

/// Predicts the calls, choosing what each does on the way.
struct Reading<'a> {
    ds: &'a [D],
    src: &'a mut Src,
    ex: Expect,
    steps: VecDeque<Step>,
    missing: BTreeMap<String, u32>,
    calls: u32,
    id: u32,
    depth: usize,
    failing: usize,
    /// Something was left unread, failed and was swallowed, or is a further element.
    odd: bool,
    after_odd: bool,
    unspecified: bool,
}

struct Partial {
    d: usize,
    own: Vec<Option<Mv>>,
    subs: Vec<Partial>,
    chars: String,
    variant: Option<(usize, Option<Mv>)>,
}

impl Reading<'_> {
    fn partial(&self, d: usize) -> Partial {
        let (own, subs) = match &self.ds[d].body {
            Body::Struct(fields) => (
                fields.iter().map(|_| None).collect(),
                fields
                    .iter()
                    .filter_map(|f| match f.kind {
                        K::Flatten(d) => Some(self.partial(d)),
                        _ => None,
                    })
                    .collect(),
            ),
            Body::Enum(_) => (vec![], vec![]),
        };
        Partial {
            d,
            own,
            subs,
            chars: String::new(),
            variant: None,
        }
    }

    fn next(&mut self) -> u32 {
        self.after_odd |= self.odd;
        self.calls += 1;
        self.calls
    }

    fn id(&mut self) -> u32 {
        self.id += 1;
        2_000_000 + self.id
    }

    fn step(&mut self, what: String, e: &Elem, p: &Placed, depth: usize) -> Result<u32, Failure> {
        let token = self.next();
        self.ex.push(Log::Call(what));
        self.ex.present(e, p, depth);
        let fail = self.src.below(1000) < self.failing;
        let how = if self.depth < 4
            && self
                .src
                .pct(if e.elems().next().is_some() { 25 } else { 3 })
        {
            How::Inner
        } else {
            let mut id = self.id * 1000;
            How::Act(gen_act(self.src, e, &mut id).0)
        };
        let mut s = Step {
            before: None,
            how,
            swallow: self.src.pct(93),
            after: None,
        };
        if fail {
            let id = self.id();
            if self.src.pct(50) {
                s.before = Some(id);
            } else {
                s.after = Some(id);
            }
        }
        self.steps.push_back(s.clone());
        if let Some(id) = s.before {
            return Err(Why::Planned(id).into());
        }
        let r = match &s.how {
            How::Act(a) => {
                self.odd |= matches!(a, Act::Drop | Act::Pass) && !e.kids.is_empty();
                self.ex
                    .act(a, e, p, depth, &mut None)
                    .map_err(Failure::from)
            }
            How::Inner => {
                self.depth += 1;
                let r = self.derived(INNER, e, p, depth);
                self.depth -= 1;
                r.map(|v| {
                    let v = shown(self.ds, &v);
                    self.ex.push(Log::Value(v));
                })
            }
        };
        match r {
            Ok(()) => {}
            // Which of them it swallows mustn't depend on what's unspecified.
            Err(f) if f.open || f.whys.len() > 1 => {
                self.unspecified |= s.swallow;
                return Err(f);
            }
            Err(f) if s.swallow => {
                self.odd = true;
                self.ex.push(Log::Failed(f.whys[0]));
            }
            Err(f) => return Err(f),
        }
        match s.after {
            Some(id) => Err(Why::Planned(id).into()),
            None => Ok(token),
        }
    }

    fn a(&mut self, n: usize, text: &str) -> Result<Mv, Failure> {
        self.after_odd |= self.odd;
        self.ex.push(Log::Call(format!("A{}.init({:?})", n, text)));
        Ok(Mv::A(n, digest(text).map_err(Why::Planned)?))
    }

    fn x(&mut self, n: usize, text: &str) -> Result<Mv, Failure> {
        self.after_odd |= self.odd;
        self.ex
            .push(Log::AnyOrder(format!("X{}.parse({:?})", n, text)));
        Ok(Mv::X(n, digest(text).map_err(Why::Planned)?))
    }

    fn derived(&mut self, d: usize, e: &Elem, p: &Placed, depth: usize) -> Result<Mv, Failure> {
        let mut partial = self.partial(d);
        for n in &p.attrs {
            self.attr(&mut partial, n, e.attr(n).unwrap())?;
        }
        let mut i = 0;
        for k in &e.kids {
            match k {
                Node::Text(t) => {
                    self.chars(&mut partial, t);
                }
                Node::Elem(c) => {
                    self.elem(&mut partial, c, &p.kids[i], depth + 1)?;
                    i += 1;
                }
            }
        }
        let mut whys = Vec::new();
        let from = self.ex.log.len();
        let v = self.finish(partial, &mut whys);
        if whys.is_empty() {
            return Ok(v);
        }
        for l in &mut self.ex.log[from..] {
            optional(l);
        }
        Err(Failure { whys, open: false })
    }

    fn attr(&mut self, s: &mut Partial, name: &Name, value: &str) -> Result<bool, Failure> {
        let ds = self.ds;
        if let Body::Struct(fields) = &ds[s.d].body {
            for (f, own) in fields.iter().zip(&mut s.own) {
                if f.name != *name {
                    continue;
                }
                match f.kind {
                    K::AttrA(n) => {
                        *own = Some(self.a(n, value)?);
                        return Ok(true);
                    }
                    K::AttrX(n, mult) => {
                        let v = self.x(n, value)?;
                        *own = Some(match mult {
                            Mult::Opt => Mv::Opt(Some(Box::new(v))),
                            _ => v,
                        });
                        return Ok(true);
                    }
                    _ => {}
                }
            }
        }
        for sub in &mut s.subs {
            if self.attr(sub, name, value)? {
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn chars(&mut self, s: &mut Partial, t: &str) -> bool {
        let ds = self.ds;
        if let Body::Struct(fields) = &ds[s.d].body {
            if fields.iter().any(|f| matches!(f.kind, K::Text(_))) {
                s.chars.push_str(t);
                return true;
            }
        }
        s.subs.iter_mut().any(|sub| self.chars(sub, t))
    }

    /// Gives `e` to what may already have a value.
    fn update(
        &mut self,
        slot: &mut Option<Mv>,
        kind: K,
        e: &Elem,
        p: &Placed,
        depth: usize,
    ) -> Result<(), Failure> {
        match (kind, &mut *slot) {
            (K::P(n), None) => {
                *slot = Some(Mv::P(
                    n,
                    vec![self.step(format!("P{}.init", n), e, p, depth)?],
                ));
            }
            (K::P(n), Some(Mv::P(_, tokens))) => {
                self.odd = true;
                let t = self.step(format!("P{}{:?}.update", n, tokens), e, p, depth)?;
                tokens.push(t);
            }
            (K::El(el, mult), None) => {
                let v = self.el(el, e, p, depth)?;
                *slot = Some(match mult {
                    Mult::One => v,
                    Mult::Opt => Mv::Opt(Some(Box::new(v))),
                    Mult::Many => Mv::Many(vec![v]),
                });
            }
            (K::El(el, Mult::Many), Some(Mv::Many(vs))) => {
                self.odd = true;
                vs.push(self.el(el, e, p, depth)?);
            }
            (K::El(..), Some(_)) => return Err(excess()),
            _ => unreachable!(),
        }
        Ok(())
    }

    fn el(&mut self, el: El, e: &Elem, p: &Placed, depth: usize) -> Result<Mv, Failure> {
        Ok(match el {
            El::V(n) => Mv::V(n, self.step(format!("V{}.deserialize", n), e, p, depth)?),
            El::X(n) => {
                let mut t = String::new();
                for k in &e.kids {
                    match k {
                        Node::Text(s) => t.push_str(s),
                        Node::Elem(_) => return Err(Why::Library.into()),
                    }
                }
                self.x(n, &t)?
            }
            El::D(d) => self.derived(d, e, p, depth)?,
        })
    }

    fn elem(
        &mut self,
        s: &mut Partial,
        e: &Elem,
        p: &Placed,
        depth: usize,
    ) -> Result<bool, Failure> {
        let ds = self.ds;
        match &ds[s.d].body {
            Body::Enum(variants) => {
                let i = match variants.iter().position(|v| v.1 == e.name) {
                    Some(i) => i,
                    None => return Ok(false),
                };
                match &mut s.variant {
                    None => {
                        let mut inner = None;
                        if let Some(k) = variants[i].2 {
                            self.update(&mut inner, k, e, p, depth)?;
                        }
                        s.variant = Some((i, inner));
                    }
                    Some((j, inner)) if *j == i => match variants[i].2 {
                        Some(k) => self.update(inner, k, e, p, depth)?,
                        None => self.unspecified = true,
                    },
                    Some(_) => return Err(excess()),
                }
                Ok(true)
            }
            Body::Struct(fields) => {
                for (f, own) in fields.iter().zip(&mut s.own) {
                    if matches!(f.kind, K::P(_) | K::El(..)) && f.name == e.name {
                        self.update(own, f.kind, e, p, depth)?;
                        return Ok(true);
                    }
                }
                for sub in &mut s.subs {
                    if self.elem(sub, e, p, depth)? {
                        return Ok(true);
                    }
                }
                self.odd |= !e.kids.is_empty();
                Ok(false)
            }
        }
    }

    fn absent(&mut self, what: String, name: &Name, whys: &mut Vec<Why>) {
        self.ex.push(Log::AnyOrder(format!(
            "{}.missing({{{}}}{})",
            what, name.ns, name.local
        )));
        if let Some(id) = self.missing.get(&what) {
            whys.push(Why::Planned(*id));
        }
    }

    /// Only of any use if there's no reason for failure.
    fn finish(&mut self, s: Partial, whys: &mut Vec<Why>) -> Mv {
        let ds = self.ds;
        let fields = match &ds[s.d].body {
            Body::Enum(_) => {
                return match s.variant {
                    Some((i, v)) => Mv::Enum(s.d, i, v.map(Box::new)),
                    None => {
                        whys.push(Why::Library);
                        Mv::Many(vec![])
                    }
                }
            }
            Body::Struct(fields) => fields,
        };
        let mut subs = s.subs.into_iter();
        let mut vals = Vec::new();
        for (f, own) in fields.iter().zip(s.own) {
            let v = match (f.kind, own) {
                (K::Flatten(_), _) => {
                    let sub = subs.next().unwrap();
                    self.finish(sub, whys)
                }
                (K::Text(n), _) => {
                    self.ex
                        .push(Log::AnyOrder(format!("X{}.parse({:?})", n, s.chars)));
                    match digest(&s.chars) {
                        Ok(t) => Mv::X(n, t),
                        Err(id) => {
                            whys.push(Why::Planned(id));
                            Mv::X(n, 0)
                        }
                    }
                }
                (_, Some(v)) => v,
                (K::AttrA(n), None) if f.default => Mv::A(n, DEFAULT),
                (K::P(n), None) if f.default => Mv::P(n, vec![DEFAULT]),
                (K::El(El::V(n), Mult::One), None) if f.default => Mv::V(n, DEFAULT),
                (K::AttrA(n), None) => {
                    self.absent(format!("A{}", n), &f.name, whys);
                    Mv::A(n, 0)
                }
                (K::P(n), None) => {
                    self.absent(format!("P{}", n), &f.name, whys);
                    Mv::P(n, vec![0])
                }
                (K::AttrX(_, m) | K::El(_, m), None) => match m {
                    Mult::One => {
                        whys.push(Why::Library);
                        Mv::Many(vec![])
                    }
                    Mult::Opt => Mv::Opt(None),
                    Mult::Many => Mv::Many(vec![]),
                },
            };
            vals.push(v);
        }
        Mv::Struct(s.d, vals)
    }
}

/// Marks a call as one which may or may not be made.
fn optional(l: &mut Log) {
    if let Log::AnyOrder(s) = l {
        if !s.starts_with('?') {
            s.insert(0, '?');
        }
    }
}

// Writing.

struct Writing<'a> {
    ds: &'a [D],
    src: &'a mut Src,
    log: Vec<Log>,
    writes: BTreeMap<String, Vec<Piece>>,
    id: u32,
    failing: usize,
}

/// Any of these may be reported.
type Refused = Vec<u32>;

impl Writing<'_> {
    fn fails(&mut self) -> Option<Piece> {
        if self.src.below(1000) < self.failing {
            self.id += 1;
            Some(Piece::Fail(self.id))
        } else {
            None
        }
    }

    fn pieces(&mut self, of: String) -> Vec<Piece> {
        if let Some(p) = self.writes.get(&of) {
            return p.clone();
        }
        let text = of.starts_with(|c| c == 'A' || c == 'X') || of.ends_with('@');
        let mut v = Vec::new();
        if !text {
            for _ in 0..self.src.small(3) {
                v.push(if self.src.pct(70) {
                    let attr = if self.src.pct(30) {
                        Some(gen_text(self.src))
                    } else {
                        None
                    };
                    Piece::Elem(gen_text(self.src), attr)
                } else {
                    Piece::Text(gen_text(self.src))
                });
            }
        } else if self.src.pct(if of.starts_with('X') { 95 } else { 70 }) {
            v.push(Piece::Text(gen_text(self.src)));
        }
        v.extend(self.fails());
        self.writes.insert(of, v.clone());
        v
    }

    fn put(&mut self, of: String, name: &Name, to: &mut Elem) -> Result<(), Refused> {
        for p in self.pieces(of) {
            match p {
                Piece::Elem(text, attr) => {
                    let mut e = Elem::new(name.clone());
                    if let Some(a) = attr {
                        e.attrs.push((Name::new("", "own"), a));
                    }
                    e.push_text(&text);
                    to.kids.push(Node::Elem(e));
                }
                Piece::Text(t) => to.push_text(&t),
                Piece::Fail(id) => return Err(vec![id]),
            }
        }
        Ok(())
    }

    fn text(&mut self, v: &Mv) -> Result<String, Refused> {
        let mut s = String::new();
        self.log
            .push(Log::AnyOrder(format!("{}.to_text", shown(self.ds, v))));
        for p in self.pieces(shown(self.ds, v)) {
            match p {
                Piece::Text(t) => s.push_str(&t),
                Piece::Fail(id) => return Err(vec![id]),
                Piece::Elem(..) => {}
            }
        }
        Ok(s)
    }

    fn attr(&mut self, v: &Mv, name: &Name, e: &mut Elem) -> Result<(), Refused> {
        match v {
            Mv::A(..) => {
                self.log.push(Log::AnyOrder(format!(
                    "{}.write({{{}}}{})",
                    shown(self.ds, v),
                    name.ns,
                    name.local
                )));
                for p in self.pieces(shown(self.ds, v)) {
                    match p {
                        Piece::Text(t) => e.attrs.push((name.clone(), t)),
                        Piece::Fail(id) => return Err(vec![id]),
                        Piece::Elem(..) => {}
                    }
                }
            }
            Mv::Opt(None) => {}
            Mv::Opt(Some(v)) => self.attr(v, name, e)?,
            v => e.attrs.push((name.clone(), self.text(v)?)),
        }
        Ok(())
    }

    fn attrs(&mut self, v: &Mv, e: &mut Elem, refused: &mut Refused) {
        let ds = self.ds;
        if let Mv::Struct(d, vals) = v {
            if let Body::Struct(fields) = &ds[*d].body {
                for (f, v) in fields.iter().zip(vals) {
                    match f.kind {
                        K::AttrA(_) | K::AttrX(..) => {
                            if let Err(r) = self.attr(v, &f.name, e) {
                                refused.extend(r);
                            }
                        }
                        K::Flatten(_) => self.attrs(v, e, refused),
                        _ => {}
                    }
                }
            }
        }
    }

    fn field(&mut self, v: &Mv, name: &Name, to: &mut Elem) -> Result<(), Refused> {
        match v {
            Mv::P(..) => {
                let s = shown(self.ds, v);
                self.log.push(Log::Call(format!(
                    "{}.write({{{}}}{})",
                    s, name.ns, name.local
                )));
                self.put(s, name, to)?;
            }
            Mv::Opt(None) => {}
            Mv::Opt(Some(v)) => self.field(v, name, to)?,
            Mv::Many(vs) => {
                for v in vs {
                    self.field(v, name, to)?;
                }
            }
            v => {
                let mut e = Elem::new(name.clone());
                self.element(v, &mut e)?;
                to.kids.push(Node::Elem(e));
            }
        }
        Ok(())
    }

    fn element(&mut self, v: &Mv, e: &mut Elem) -> Result<(), Refused> {
        match v {
            Mv::V(..) => {
                let s = shown(self.ds, v);
                self.log.push(Log::Call(format!("{}.write_attributes", s)));
                for p in self.pieces(format!("{}@", s)) {
                    match p {
                        Piece::Text(t) => e.attrs.push((Name::new("", "own"), t)),
                        Piece::Fail(id) => return Err(vec![id]),
                        Piece::Elem(..) => {}
                    }
                }
                self.log.push(Log::Call(format!("{}.write_children", s)));
                self.put(s, &Name::new("", "kid"), e)
            }
            Mv::X(..) => {
                let t = self.text(v)?;
                e.push_text(&t);
                Ok(())
            }
            v => {
                let mut refused = Vec::new();
                let from = self.log.len();
                self.attrs(v, e, &mut refused);
                if !refused.is_empty() {
                    for l in &mut self.log[from..] {
                        optional(l);
                    }
                    return Err(refused);
                }
                self.children(v, e)
            }
        }
    }

    fn children(&mut self, v: &Mv, e: &mut Elem) -> Result<(), Refused> {
        let ds = self.ds;
        match v {
            Mv::Struct(d, vals) => {
                let fields = match &ds[*d].body {
                    Body::Struct(f) => f,
                    _ => unreachable!(),
                };
                let of =
                    |k: fn(&K) -> bool| fields.iter().zip(vals).filter(move |(f, _)| k(&f.kind));
                for (_, v) in of(|k| matches!(k, K::Text(_))) {
                    let t = self.text(v)?;
                    e.push_text(&t);
                }
                for (f, v) in of(|k| matches!(k, K::P(_) | K::El(..))) {
                    self.field(v, &f.name, e)?;
                }
                for (_, v) in of(|k| matches!(k, K::Flatten(_))) {
                    self.children(v, e)?;
                }
            }
            Mv::Enum(d, i, v) => {
                let variants = match &ds[*d].body {
                    Body::Enum(v) => v,
                    _ => unreachable!(),
                };
                match v {
                    Some(v) => self.field(v, &variants[*i].1, e)?,
                    None => e.kids.push(Node::Elem(Elem::new(variants[*i].1.clone()))),
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

// Generation.

struct Documents<'a> {
    ds: &'a [D],
    src: &'a mut Src,
    failing: usize,
    left: usize,
}

impl Documents<'_> {
    fn text(&mut self) -> String {
        if self.src.below(1000) < self.failing {
            return REJECT.to_owned();
        }
        gen_text(self.src)
    }

    fn any(&mut self, name: &Name) -> Elem {
        let mut e = if self.left > 0 && self.src.pct(25) {
            self.left -= 1;
            self.derived(INNER, name)
        } else {
            let depth = 5 + self.src.below(3);
            gen_tree(self.src, depth, &mut 4)
        };
        e.name = name.clone();
        e
    }

    fn fill(&mut self, d: usize, e: &mut Elem, kids: &mut Vec<Elem>) {
        let ds = self.ds;
        match &ds[d].body {
            Body::Struct(fields) => {
                for f in fields {
                    match f.kind {
                        K::AttrA(_) | K::AttrX(..) => {
                            let p = match f.kind {
                                K::AttrX(_, Mult::One) => 99,
                                _ => 80,
                            };
                            if self.src.pct(p) && e.attr(&f.name).is_none() {
                                let t = self.text();
                                e.attrs.push((f.name.clone(), t));
                            }
                        }
                        K::Flatten(d) => self.fill(d, e, kids),
                        K::Text(_) => {}
                        k => self.occurrences(k, f.default, &f.name, kids),
                    }
                }
            }
            Body::Enum(variants) => {
                let v = self.src.pick(variants);
                match v.2 {
                    Some(k) => {
                        let from = kids.len();
                        self.occurrences(k, false, &v.1, kids);
                        if kids.len() == from && self.src.pct(90) {
                            self.occurrences(K::P(0), false, &v.1, kids);
                        }
                    }
                    None => kids.push(self.any(&v.1)),
                }
                if self.src.pct(1) {
                    let v = self.src.pick(variants);
                    kids.push(self.any(&v.1));
                }
            }
        }
    }

    fn occurrences(&mut self, k: K, default: bool, name: &Name, kids: &mut Vec<Elem>) {
        let n = match k {
            K::P(_) => [1, 0, 2, 3][self.src.weighted(&[60, 12, 18, 10])],
            K::El(El::D(_), Mult::Many) if self.left == 0 => 0,
            K::El(_, Mult::Many) => self.src.small(4),
            K::El(_, Mult::Opt) => [1, 0, 2][self.src.weighted(&[600, 396, 4])],
            _ if default => [1, 0, 2][self.src.weighted(&[600, 396, 4])],
            _ => [1, 0, 2][self.src.weighted(&[992, 4, 4])],
        };
        for _ in 0..n {
            let e = match k {
                K::El(El::D(d), _) => {
                    self.left = self.left.saturating_sub(1);
                    self.derived(d, name)
                }
                K::El(El::X(_), _) => {
                    let mut e = Elem::new(name.clone());
                    let t = self.text();
                    e.push_text(&t);
                    if self.src.below(300) == 0 {
                        e.kids.push(Node::Elem(Elem::new(name.clone())));
                    }
                    e
                }
                _ => self.any(name),
            };
            kids.push(e);
        }
    }

    fn derived(&mut self, d: usize, name: &Name) -> Elem {
        let mut e = Elem::new(name.clone());
        let mut kids = Vec::new();
        self.fill(d, &mut e, &mut kids);
        let others = ["nothing", "e0x", "E0", "outer"];
        for _ in 0..self.src.small(2) {
            let n = Name::new(
                self.src.pick(&["", "urn:d", "urn:z"]),
                self.src.pick(&others),
            );
            kids.push(self.any(&n));
            if self.src.pct(30) && e.attr(&n).is_none() {
                e.attrs.push((n, "x".to_owned()));
            }
        }
        self.src.shuffle(&mut e.attrs);
        if self.src.below(1500) == 1499 {
            let n = [70, 300][self.src.small(2)];
            let more = (0..n).map(|i| (Name::new("", &format!("w{}", i)), String::new()));
            let at = if self.src.pct(50) { 0 } else { e.attrs.len() };
            e.attrs.splice(at..at, more);
        }
        if self.src.pct(70) {
            self.src.shuffle(&mut kids);
        }
        for k in kids {
            if self.src.pct(25) {
                let t = self.text();
                e.push_text(&t);
            }
            e.kids.push(Node::Elem(k));
        }
        if self.src.pct(40) {
            let t = self.text();
            e.push_text(&t);
        }
        e
    }
}

// Comparison.

/// Says where the logs part, if they do. `open` is whether further calls are fine.
fn compare(want: &[Log], got: &[Log], open: bool) -> Option<String> {
    let (mut i, mut j) = (0, 0);
    loop {
        let run = |l: &[Log], from: usize| -> Vec<String> {
            l[from..]
                .iter()
                .map_while(|l| match l {
                    Log::AnyOrder(s) => Some(s.clone()),
                    _ => None,
                })
                .collect()
        };
        let (w, g) = (run(want, i), run(got, j));
        i += w.len();
        j += g.len();
        let mut w = w;
        for c in &g {
            let same = |x: &String| x == c || x.strip_prefix('?') == Some(c);
            match w.iter().position(same) {
                Some(k) => {
                    w.remove(k);
                }
                None if open && i == want.len() => return None,
                None => return Some(format!("the call {} isn't expected", c)),
            }
        }
        if let Some(c) = w.iter().find(|c| !c.starts_with('?')) {
            return Some(format!("expected the call {}", c));
        }
        match (want.get(i), got.get(j)) {
            (None, None) => return None,
            (None, Some(_)) if open => return None,
            (Some(w), Some(g)) if same(w, g) => {}
            (w, g) => return Some(format!("expected {:?}, got {:?}", w, g)),
        }
        i += 1;
        j += 1;
    }
}

fn c19(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    match src.weighted(&[50, 20, 15, 10, 5]) {
        0 => run::<Outer>(ctx, OUTER, src, case),
        1 => run::<Inner>(ctx, INNER, src, case),
        2 => run::<Choice>(ctx, CHOICE, src, case),
        3 => run::<Flat>(ctx, FLAT, src, case),
        _ => run::<Other>(ctx, OTHER, src, case),
    }
}

fn run<T: Deserialize + ser::SerializeRoot + Debug>(
    _: &Ctx,
    d: usize,
    src: &mut Src,
    case: &mut Case,
) -> R {
    let ds = descriptions();
    let failing = [0, 8, 40][src.weighted(&[50, 30, 20])];
    let left = src.small(4);
    let tree = Documents {
        ds: &ds,
        src,
        failing: failing / 4,
        left,
    }
    .derived(d, &ds[d].root);
    let style = if src.pct(60) {
        Style::VARIED
    } else {
        Style::PLAIN
    };
    let doc = render(src, &tree, style);
    let mut missing = BTreeMap::new();
    let mut id = 1_500_000;
    for (k, n) in [("A", 6), ("P", 10)] {
        for i in 0..n {
            if src.below(1000) < failing {
                id += 1;
                missing.insert(format!("{}{}", k, i), id);
            }
        }
    }
    let mut m = Reading {
        ds: &ds,
        src: &mut *src,
        ex: Expect::new(),
        steps: VecDeque::new(),
        missing,
        calls: 0,
        id: 0,
        depth: 0,
        failing: failing / 2,
        odd: false,
        after_odd: false,
        unspecified: false,
    };
    let want = m.derived(d, &tree, &doc.root, 1);
    let unspecified = m.unspecified;
    let (mut ex, steps, missing) = (m.ex, m.steps, m.missing);
    case.key(&doc.text);
    case.key(format!("{:?}", steps));
    case.nontrivial = m.calls >= 3 && m.after_odd;
    if unspecified {
        case.nontrivial = false;
        case.label("unspecified");
        return Ok(());
    }
    let context = |ex: &[Log], log: &[Log], more: &str| {
        format!(
            "\ndocument: {}\nsteps: {:?}\nfailing if absent: {:?}{}\nexpected calls: {}\nactual calls: {}",
            xmltree::clip(&doc.text),
            steps,
            missing,
            more,
            events(ex),
            events(log)
        )
    };
    case.sample(|| format!("{}\n{:?}", doc.text, steps));

    STEPS.with(|s| *s.borrow_mut() = steps.clone());
    MISSING.with(|s| *s.borrow_mut() = missing.clone());
    CALLS.with(|c| c.set(0));
    clear_log();
    let got = static_xml::de::from_str::<T>(&doc.text);
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let open = matches!(&want, Err(f) if f.open);
    if let Some(what) = compare(&ex.log, &log, open) {
        fail!("on reading: {}{}", what, context(&ex.log, &log, ""));
    }
    let (want, got) = match (want, got) {
        (Ok(w), Ok(g)) => (w, g),
        (Err(f), Err(e)) => {
            let actual =
                match std::error::Error::source(&e).and_then(|s| s.downcast_ref::<Planned>()) {
                    Some(p) => Why::Planned(p.0),
                    None => Why::Library,
                };
            ensure!(
                f.whys.contains(&actual),
                "expected one of the errors {:?}, got {:?}: {}{}",
                f.whys,
                actual,
                e,
                context(&ex.log, &log, "")
            );
            case.label("not read, as planned");
            return Ok(());
        }
        (Ok(_), Err(e)) => fail!("unexpected error: {}{}", e, context(&ex.log, &log, "")),
        (Err(f), Ok(_)) => fail!(
            "the error {:?} was lost{}",
            f.whys,
            context(&ex.log, &log, "")
        ),
    };
    let shown_want = shown(&ds, &want);
    let shown_got = format!("{:?}", got);
    ensure!(
        shown_want == shown_got,
        "read {}\nexpected {}{}",
        shown_got,
        shown_want,
        context(&ex.log, &log, "")
    );

    ex.log.clear();
    let mut w = Writing {
        ds: &ds,
        src,
        log: Vec::new(),
        writes: BTreeMap::new(),
        id: 0,
        failing: failing / 2,
    };
    let mut expected = Elem::new(ds[d].root.clone());
    let outcome = w.element(&want, &mut expected);
    let (wlog, writes) = (w.log, w.writes);
    case.key(format!("{:?}", writes));
    WRITES.with(|w| *w.borrow_mut() = writes.clone());
    clear_log();
    let out = ser::serialize(&got).to_string();
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let more = format!("\nread {}\nwriting {:?}", shown_got, writes);
    if let Some(what) = compare(&wlog, &log, false) {
        fail!("on writing: {}{}", what, context(&wlog, &log, &more));
    }
    match (outcome, out) {
        (Ok(()), Ok(o)) => {
            case.label("read and written");
            let tree = match xmltree::parse(&o) {
                Ok(t) => t,
                Err(e) => fail!("wrote {}: {}{}", o, e, context(&wlog, &log, &more)),
            };
            ensure!(
                tree.canonical() == expected.canonical(),
                "wrote {}\nwhich is {}\nexpected {}{}",
                o,
                tree.show(),
                expected.show(),
                context(&wlog, &log, &more)
            );
        }
        (Err(ids), Err(e)) => {
            case.label("not written, as planned");
            ensure!(
                ids.iter().any(|i| e.to_string().contains(&refusal(*i))),
                "expected the error {:?}, got {}{}",
                ids,
                e,
                context(&wlog, &log, &more)
            );
        }
        (Ok(()), Err(e)) => fail!("writing failed: {}{}", e, context(&wlog, &log, &more)),
        (Err(ids), Ok(o)) => fail!(
            "the error {:?} was lost on writing {}{}",
            ids,
            o,
            context(&wlog, &log, &more)
        ),
    }
    Ok(())
}
