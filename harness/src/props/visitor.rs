//! Hand-written visitors: a tree of them, doing all sorts of things to the reader.

use crate::engine::{Case, Prop, R};
use crate::model::gen_string;
use crate::schema::Name;
use crate::source::Src;
use crate::xmltree::{render, Elem, Node, Placed, Style};
use crate::{ensure, fail};
use static_xml::de::{
    Deserialize, DeserializeElementField, ElementReader, ElementVisitor, VisitorError,
};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const PROPS: &[Prop] = &[Prop {
    id: "C06",
    level: "exploration",
    rule: "A random tree of named elements, attributes and text in a random spelling, and a random plan for each element: drop the reader, pass it on, read its text, read it with a further planned visitor which may give up at a chosen attribute, run of text or child (before or after dealing with it), with a visitor which ignores everything, or with a built-in or derived type whose error arises after the element's end. Errors are swallowed or propagated at each level as planned. Oracle: the events expected by recursion over the tree. Non-trivial: after something was skipped or failed, at least one more event was expected.",
    assumptions: &["how a run of text is divided into events isn't specified"],
    quick: 1_000_000,
    thorough: 12_000_000,
    run: |_, s, k| c06(s, k),
    fixed: |_| FIXED.len(),
    run_fixed: |c, i, k| (FIXED[i])(c.thorough, k),
}];

const FIXED: &[fn(bool, &mut Case) -> R] = &[deep_skip, deep_read, wide, deep_swallow];

/// What to do about one child.
#[derive(Clone, Debug)]
pub enum Act {
    /// Drop the reader.
    Drop,
    /// Return the reader.
    Pass,
    Visit(Plan),
    /// Read with a visitor which overrides nothing.
    Null,
    ReadString,
    /// Read as one of the library's or macros' types.
    Typed(Typed),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Typed {
    Str,
    Int,
    OptBool,
    /// Appends to a list, like a repeated field.
    List,
    /// A derived type which lacks an attribute.
    Derived,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub acts: Vec<(Act, Swallow)>,
    pub abort: Option<Abort>,
    /// Identifies the error.
    pub id: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Swallow {
    No,
    /// And return `Ok(None)`.
    Yes,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Abort {
    /// At an attribute, by number.
    Attr(usize),
    /// At the text after the given number of child elements.
    Text(usize),
    Before(usize),
    After(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Log {
    /// Was presented with an element.
    Elem {
        name: Name,
        prefix: String,
        depth: usize,
        scope: BTreeMap<String, String>,
    },
    Attr(Name, String),
    Text(String),
    /// `read_to` succeeded for the element with this name, prefix, and scope, and with its end tag
    /// there, if that's certain.
    End(Name, String, BTreeMap<String, String>, Option<(u64, u64)>),
    Failed(Why),
    Str(String),
    Value(String),
    /// A method of a hand-written type, and what it was given.
    Call(String),
    /// The same where the order of several isn't specified.
    AnyOrder(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    /// A visitor gave up.
    Planned(u32),
    /// A text-only type came across an element or unsuitable text, or a derived type lacks
    /// something.
    Library,
}

#[derive(Debug)]
pub struct Planned(pub u32);

impl std::fmt::Display for Planned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "planned {}", self.0)
    }
}

impl std::error::Error for Planned {}

pub fn why(e: &VisitorError) -> Why {
    let src: Option<&(dyn std::error::Error + 'static)> = match e {
        VisitorError::Propagate(e) => std::error::Error::source(e),
        VisitorError::Wrap(e) => Some(e.as_ref()),
    };
    match src.and_then(|s| s.downcast_ref::<Planned>()) {
        Some(p) => Why::Planned(p.0),
        None => Why::Library,
    }
}

thread_local! {
    /// Where the last run of text at which a visitor gave up was said to be.
    pub static TEXT_POS: std::cell::Cell<(u64, u64)> = Default::default();
    pub static PLAN: RefCell<Option<(Act, Swallow)>> = RefCell::new(None);
    pub static LOG: RefCell<Vec<Log>> = RefCell::new(Vec::new());
}

pub fn clear_log() {
    LOG.with(|l| l.borrow_mut().clear());
}

pub fn log(l: Log) {
    LOG.with(|v| v.borrow_mut().push(l));
    crate::points::point();
}

/// What a thread reads by, and what it has seen.
pub type State = (Option<(Act, Swallow)>, Vec<Log>);

pub fn swap_state(s: State) -> State {
    (PLAN.with(|p| p.replace(s.0)), LOG.with(|l| l.replace(s.1)))
}

fn scope(n: &xml::namespace::Namespace) -> BTreeMap<String, String> {
    let mut m = n.0.clone();
    tidy_scope(&mut m);
    m
}

fn tidy_scope(m: &mut BTreeMap<String, String>) {
    m.remove("xml");
    m.remove("xmlns");
    if m.get("").map_or(false, |u| u.is_empty()) {
        m.remove("");
    }
}

fn name_of(n: &xml::name::Name<'_>) -> Name {
    Name::new(n.namespace.unwrap_or(""), n.local_name)
}

pub fn present(r: &ElementReader<'_>) -> Log {
    let n = r.name();
    let x = r.expanded_name();
    let name = name_of(&n);
    assert_eq!((x.namespace, x.local_name), (&name.ns[..], &name.local[..]));
    Log::Elem {
        name,
        prefix: n.prefix.unwrap_or("").to_owned(),
        depth: r.depth(),
        scope: scope(r.namespace()),
    }
}

struct Visitor<'p> {
    plan: &'p Plan,
    attrs: usize,
    kids: usize,
    list: Option<Vec<String>>,
}

struct Nothing;
impl ElementVisitor for Nothing {}

#[derive(Debug, static_xml_derive::Deserialize)]
struct Lacking {
    #[static_xml(attribute)]
    never_there: String,
    #[static_xml(default)]
    _x: String,
}

impl<'p> Visitor<'p> {
    fn new(plan: &'p Plan) -> Self {
        Visitor {
            plan,
            attrs: 0,
            kids: 0,
            list: None,
        }
    }

    fn give_up(&self) -> crate::Boxed {
        Box::new(Planned(self.plan.id))
    }
}

/// Carries out an act, and says whether to pass the element on.
pub fn carry_out<'a>(
    act: &Act,
    r: ElementReader<'a>,
    list: &mut Option<Vec<String>>,
) -> Result<Option<ElementReader<'a>>, VisitorError> {
    match act {
        Act::Drop => {
            drop(r);
            Ok(None)
        }
        Act::Pass => Ok(Some(r)),
        Act::Visit(p) => {
            let (name, ns, pos) = r.read_to(&mut Visitor::new(p))?;
            let b = name.borrow();
            log(Log::End(
                name_of(&b),
                b.prefix.unwrap_or("").to_owned(),
                scope(&ns),
                Some((pos.row, pos.column)),
            ));
            Ok(None)
        }
        Act::Null => {
            let (name, ns, pos) = r.read_to(&mut Nothing)?;
            let b = name.borrow();
            log(Log::End(
                name_of(&b),
                b.prefix.unwrap_or("").to_owned(),
                scope(&ns),
                Some((pos.row, pos.column)),
            ));
            Ok(None)
        }
        Act::ReadString => {
            log(Log::Str(r.read_string()?));
            Ok(None)
        }
        Act::Typed(t) => {
            let v = match t {
                Typed::Str => <String as Deserialize>::deserialize(r)?,
                Typed::Int => <i32 as Deserialize>::deserialize(r)?.to_string(),
                Typed::OptBool => {
                    format!("{:?}", <Option<bool> as DeserializeElementField>::init(r)?)
                }
                Typed::List => {
                    match list {
                        Some(l) => l.update(r)?,
                        None => *list = Some(DeserializeElementField::init(r)?),
                    }
                    format!("{:?}", list)
                }
                Typed::Derived => Lacking::deserialize(r)?.never_there,
            };
            log(Log::Value(v));
            Ok(None)
        }
    }
}

impl<'p> ElementVisitor for Visitor<'p> {
    fn attribute(
        &mut self,
        name: &ExpandedNameRef<'_>,
        value: String,
    ) -> Result<Option<String>, VisitorError> {
        log(Log::Attr(
            Name::new(name.namespace, name.local_name),
            value.clone(),
        ));
        let i = self.attrs;
        self.attrs += 1;
        if self.plan.abort == Some(Abort::Attr(i)) {
            return Err(VisitorError::Wrap(self.give_up()));
        }
        // Neither answer makes a difference here.
        Ok(if i % 2 == 0 { None } else { Some(value) })
    }

    fn element<'a>(
        &mut self,
        child: ElementReader<'a>,
    ) -> Result<Option<ElementReader<'a>>, VisitorError> {
        log(present(&child));
        let i = self.kids;
        self.kids += 1;
        if self.plan.abort == Some(Abort::Before(i)) {
            return Err(VisitorError::Wrap(self.give_up()));
        }
        let default = (Act::Pass, Swallow::No);
        let (act, swallow) = self.plan.acts.get(i).unwrap_or(&default);
        let r = match carry_out(act, child, &mut self.list) {
            Ok(r) => r,
            Err(e) if *swallow == Swallow::Yes => {
                log(Log::Failed(why(&e)));
                None
            }
            Err(e) => return Err(e),
        };
        if self.plan.abort == Some(Abort::After(i)) {
            return Err(VisitorError::Wrap(self.give_up()));
        }
        Ok(r)
    }

    fn characters(
        &mut self,
        s: String,
        pos: xml::common::TextPosition,
    ) -> Result<Option<String>, crate::Boxed> {
        let abort = self.plan.abort == Some(Abort::Text(self.kids)) && !s.is_empty();
        LOG.with(|v| {
            let mut v = v.borrow_mut();
            match v.last_mut() {
                Some(Log::Text(t)) => t.push_str(&s),
                _ if s.is_empty() => {}
                _ => v.push(Log::Text(s.clone())),
            }
        });
        if abort {
            TEXT_POS.with(|c| c.set((pos.row, pos.column)));
            return Err(self.give_up());
        }
        Ok(if s.len() % 2 == 0 { None } else { Some(s) })
    }
}

pub struct Root;

impl Deserialize for Root {
    fn deserialize(r: ElementReader<'_>) -> Result<Self, VisitorError> {
        let (act, swallow) = PLAN.with(|p| p.borrow_mut().take()).expect("a plan");
        log(present(&r));
        match carry_out(&act, r, &mut None) {
            Ok(_) => Ok(Root),
            Err(e) if swallow == Swallow::Yes => {
                log(Log::Failed(why(&e)));
                Ok(Root)
            }
            Err(e) => Err(e),
        }
    }
}

// The model.

pub struct Expect {
    pub log: Vec<Log>,
    /// Whether something was skipped or failed, and something else came afterwards.
    skipped: bool,
    resumed: bool,
    /// Child element indices leading to the current element.
    path: Vec<usize>,
    /// Where the last error arose.
    pub at: Option<(Vec<usize>, At)>,
    /// How many errors were swallowed.
    swallowed: usize,
    /// A visitor gave up after dealing with a child within which an error was swallowed, so that
    /// it isn't obvious which elements are still open.
    pub unclear: bool,
    /// Whether end tags are where they seem to be.
    pub exact: bool,
}

/// The position of an error.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    /// The start of the innermost element.
    Start,
    Text,
}

impl Expect {
    pub fn new() -> Self {
        Expect {
            log: Vec::new(),
            skipped: false,
            resumed: false,
            path: Vec::new(),
            at: None,
            swallowed: 0,
            unclear: false,
            exact: false,
        }
    }

    /// Notes that an error arises in the `child`th child element of the current one, if any.
    fn fault(&mut self, child: Option<usize>, at: At) {
        let mut p = self.path.clone();
        p.extend(child);
        self.at = Some((p, at));
    }

    pub fn push(&mut self, l: Log) {
        self.resumed |= self.skipped && !matches!(l, Log::Failed(_));
        self.log.push(l);
    }

    pub fn present(&mut self, e: &Elem, p: &Placed, depth: usize) {
        let mut s = p.scope.clone();
        tidy_scope(&mut s);
        self.push(Log::Elem {
            name: e.name.clone(),
            prefix: p.prefix.clone(),
            depth,
            scope: s,
        });
    }

    fn end(&mut self, e: &Elem, p: &Placed) {
        let mut s = p.scope.clone();
        tidy_scope(&mut s);
        let close = p.close.filter(|_| self.exact);
        self.push(Log::End(e.name.clone(), p.prefix.clone(), s, close));
    }

    pub fn act(
        &mut self,
        act: &Act,
        e: &Elem,
        p: &Placed,
        depth: usize,
        list: &mut Option<Vec<String>>,
    ) -> Result<(), Why> {
        match act {
            Act::Drop | Act::Pass => {
                self.skipped |= !e.kids.is_empty();
            }
            Act::Null => {
                self.skipped |= !e.kids.is_empty();
                self.end(e, p);
            }
            Act::Visit(plan) => {
                self.visit(plan, e, p, depth)?;
                self.end(e, p);
            }
            Act::ReadString => {
                let t = self.text(e)?;
                self.push(Log::Str(t));
            }
            Act::Typed(t) => {
                let v = match t {
                    Typed::Str => self.text(e)?,
                    Typed::Int => {
                        let t = self.text(e)?;
                        crate::model::parse_int(&t, i32::MIN as i128, i32::MAX as i128)
                            .ok_or_else(|| {
                                self.fault(None, At::Start);
                                Why::Library
                            })?
                            .to_string()
                    }
                    Typed::OptBool => match crate::model::trim(&self.text(e)?) {
                        "true" | "1" => "Some(true)".to_owned(),
                        "false" | "0" => "Some(false)".to_owned(),
                        _ => {
                            self.fault(None, At::Start);
                            return Err(Why::Library);
                        }
                    },
                    Typed::List => {
                        let t = self.text(e)?;
                        list.get_or_insert_with(Vec::new).push(t);
                        format!("{:?}", list)
                    }
                    Typed::Derived => {
                        self.fault(None, At::Start);
                        return Err(Why::Library);
                    }
                };
                self.push(Log::Value(v));
            }
        }
        Ok(())
    }

    fn text(&mut self, e: &Elem) -> Result<String, Why> {
        let mut t = String::new();
        for k in &e.kids {
            match k {
                Node::Text(s) => t.push_str(s),
                Node::Elem(_) => {
                    self.fault(Some(0), At::Start);
                    return Err(Why::Library);
                }
            }
        }
        Ok(t)
    }

    fn visit(&mut self, plan: &Plan, e: &Elem, p: &Placed, depth: usize) -> Result<(), Why> {
        for (i, n) in p.attrs.iter().enumerate() {
            self.push(Log::Attr(n.clone(), e.attr(n).unwrap().to_owned()));
            if plan.abort == Some(Abort::Attr(i)) {
                self.fault(None, At::Start);
                return Err(Why::Planned(plan.id));
            }
        }
        let mut n = 0;
        let mut list = None;
        let mut run = String::new();
        for k in &e.kids {
            let c = match k {
                Node::Text(t) => {
                    run.push_str(t);
                    continue;
                }
                Node::Elem(c) => c,
            };
            self.run(plan, &mut run, n)?;
            self.present(c, &p.kids[n], depth + 1);
            if plan.abort == Some(Abort::Before(n)) {
                self.fault(Some(n), At::Start);
                return Err(Why::Planned(plan.id));
            }
            let default = (Act::Pass, Swallow::No);
            let (act, swallow) = plan.acts.get(n).unwrap_or(&default);
            let swallowed = self.swallowed;
            self.path.push(n);
            let r = self.act(act, c, &p.kids[n], depth + 1, &mut list);
            self.path.pop();
            if let Err(w) = r {
                self.skipped = true;
                if *swallow == Swallow::No {
                    return Err(w);
                }
                self.swallowed += 1;
                self.push(Log::Failed(w));
            }
            if plan.abort == Some(Abort::After(n)) {
                self.unclear = self.swallowed > swallowed;
                self.fault(Some(n), At::Start);
                return Err(Why::Planned(plan.id));
            }
            n += 1;
        }
        self.run(plan, &mut run, n)
    }

    fn run(&mut self, plan: &Plan, run: &mut String, n: usize) -> Result<(), Why> {
        if run.is_empty() {
            return Ok(());
        }
        let t = std::mem::take(run);
        if plan.abort == Some(Abort::Text(n)) {
            // Any non-empty prefix will do; see `same`.
            self.push(Log::Text(format!("{}{}", PARTIAL, t)));
            self.fault(None, At::Text);
            return Err(Why::Planned(plan.id));
        }
        self.push(Log::Text(t));
        Ok(())
    }
}

/// Not a character which may appear in XML.
const PARTIAL: char = '\u{1}';

pub fn same(want: &Log, got: &Log) -> bool {
    match (want, got) {
        (Log::Text(w), Log::Text(g)) if w.starts_with(PARTIAL) => {
            !g.is_empty() && w[1..].starts_with(&g[..])
        }
        (Log::End(n, p, s, None), Log::End(n2, p2, s2, _)) => (n, p, s) == (n2, p2, s2),
        (w, g) => w == g,
    }
}

/// Whether xml-rs counts columns of `text` right, which it doesn't near references, comments, and
/// the like.
pub fn exact(text: &str) -> bool {
    !["&", "<!", "<?", ";"].iter().any(|s| text.contains(s))
}

// Generation.

const LOCALS: &[&str] = &[
    "a",
    "b",
    "c",
    "item",
    "é",
    "x-1",
    "a",
    "b",
    "c",
    "a",
    "b",
    "c",
    long!("a"),
    long!("b"),
];
const URLS: &[&str] = &["", "", "urn:a", "urn:b", "http://example.com/a", "urn:x"];

fn gen_name(src: &mut Src) -> Name {
    Name::new(src.pick(URLS), src.pick(LOCALS))
}

pub fn gen_text(src: &mut Src) -> String {
    match src.weighted(&[40, 30, 30]) {
        0 => src
            .pick(&["t", " ", "1", "true", "\n  ", "x y"])
            .to_string(),
        1 => src.pick(&["-7", " 42 ", "0", "2147483648"]).to_string(),
        _ => gen_string(src),
    }
}

pub fn gen_tree(src: &mut Src, depth: usize, left: &mut usize) -> Elem {
    let mut e = Elem::new(gen_name(src));
    for _ in 0..src.small(4) {
        let n = gen_name(src);
        if e.attr(&n).is_none() {
            e.attrs.push((n, gen_text(src)));
        }
    }
    let kids = if depth >= 7 {
        src.small(2)
    } else {
        1 + src.small(6)
    };
    for _ in 0..kids {
        if depth < 7 && *left > 0 && src.pct(65) {
            *left -= 1;
            e.kids.push(Node::Elem(gen_tree(src, depth + 1, left)));
        } else {
            e.push_text(&gen_text(src));
        }
    }
    e
}

/// Makes one in hundreds of trees big.
pub fn inflate(src: &mut Src, tree: &mut Elem) {
    if src.below(400) == 399 {
        crate::xmltree::inflate(src, tree);
    }
}

/// Puts one in hundreds of trees far down in another.
pub fn deepen(src: &mut Src, tree: &mut Elem, act: &mut Act, swallow: &mut Swallow) {
    if src.below(400) != 399 {
        return;
    }
    let n = [20, 70, 270][src.small(3)];
    let at = if src.pct(50) { src.below(n) } else { n };
    let text = src.pick(&["", "t", "\n"]);
    let ns = src.pick(URLS);
    for i in 0..n {
        let mut outer = Elem::new(Name::new(if i % 17 == 0 { "" } else { ns }, "n"));
        outer.push_text(text);
        outer.kids.push(Node::Elem(std::mem::replace(
            tree,
            Elem::new(Name::new("", "")),
        )));
        *tree = outer;
        let inner = std::mem::replace(act, Act::Drop);
        let s = match i == at {
            true => Swallow::Yes,
            false => std::mem::replace(swallow, Swallow::No),
        };
        *act = Act::Visit(Plan {
            acts: vec![(inner, s)],
            abort: None,
            id: 10_000 + i as u32,
        });
        *swallow = Swallow::No;
    }
}

pub fn gen_act(src: &mut Src, e: &Elem, id: &mut u32) -> (Act, Swallow) {
    let texty = e.elems().next().is_none();
    let act = match src.weighted(&[8, 8, 60, 6, 8, 10]) {
        0 => Act::Drop,
        1 => Act::Pass,
        2 => Act::Visit(gen_plan(src, e, id)),
        3 => Act::Null,
        4 => Act::ReadString,
        _ => Act::Typed(*src.pick(if texty {
            &[
                Typed::Str,
                Typed::Int,
                Typed::OptBool,
                Typed::List,
                Typed::Derived,
            ]
        } else {
            &[
                Typed::Derived,
                Typed::Str,
                Typed::List,
                Typed::Int,
                Typed::OptBool,
            ]
        })),
    };
    let swallow = if src.pct(65) {
        Swallow::Yes
    } else {
        Swallow::No
    };
    (act, swallow)
}

pub fn gen_plan(src: &mut Src, e: &Elem, id: &mut u32) -> Plan {
    *id += 1;
    let me = *id;
    let n = e.elems().count();
    let abort = if src.pct(25) {
        Some(match src.below(4) {
            0 => Abort::Attr(src.small(3)),
            1 => Abort::Text(src.below(n + 1)),
            2 => Abort::Before(src.below(n.max(1))),
            _ => Abort::After(src.below(n.max(1))),
        })
    } else {
        None
    };
    Plan {
        acts: e.elems().map(|c| gen_act(src, c, id)).collect(),
        abort,
        id: me,
    }
}

fn c06(src: &mut Src, case: &mut Case) -> R {
    let mut left = 3 + src.below(30);
    let mut tree = gen_tree(src, 1, &mut left);
    inflate(src, &mut tree);
    let mut act = gen_act(src, &tree, &mut 0);
    if src.pct(85) && !matches!(act.0, Act::Visit(_)) {
        act.0 = Act::Visit(gen_plan(src, &tree, &mut 1000));
    }
    deepen(src, &mut tree, &mut act.0, &mut act.1);
    let style = if src.pct(80) {
        Style::VARIED
    } else {
        Style::PLAIN
    };
    decide(src, &tree, act, style, case)
}

fn decide(src: &mut Src, tree: &Elem, act: (Act, Swallow), style: Style, case: &mut Case) -> R {
    let doc = render(src, tree, style);
    let mut ex = Expect::new();
    ex.exact = exact(&doc.text);
    ex.present(tree, &doc.root, 1);
    let mut want = ex.act(&act.0, tree, &doc.root, 1, &mut None);
    if let Err(w) = want {
        if act.1 == Swallow::Yes {
            ex.push(Log::Failed(w));
            want = Ok(());
        }
    }
    case.key(&doc.text);
    case.key(format!("{:?}", act));
    case.nontrivial = ex.resumed;
    case.label(if want.is_ok() {
        "read"
    } else {
        "failed as planned"
    });
    case.sample(|| format!("{}\n{:?}", doc.text, act));

    PLAN.with(|p| *p.borrow_mut() = Some(act.clone()));
    LOG.with(|l| l.borrow_mut().clear());
    let got = static_xml::de::from_str::<Root>(&doc.text);
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let context = || {
        format!(
            "\ndocument: {}\nplan: {:?}\nexpected events: {}\nactual events: {}",
            crate::xmltree::clip(&doc.text),
            act,
            events(&ex.log),
            events(&log)
        )
    };
    for i in 0..ex.log.len().max(log.len()) {
        match (ex.log.get(i), log.get(i)) {
            (Some(w), Some(g)) if same(w, g) => {}
            (w, g) => fail!("event {}: expected {:?}, got {:?}{}", i, w, g, context()),
        }
    }
    match (&want, &got) {
        (Ok(()), Ok(_)) => {}
        (Err(w), Err(e)) => {
            let actual =
                match std::error::Error::source(e).and_then(|s| s.downcast_ref::<Planned>()) {
                    Some(p) => Why::Planned(p.0),
                    None => Why::Library,
                };
            ensure!(
                *w == actual,
                "expected the error {:?}, got {:?}: {}{}",
                w,
                actual,
                e,
                context()
            );
        }
        (Ok(()), Err(e)) => fail!("unexpected error: {}{}", e, context()),
        (Err(w), Ok(_)) => fail!("the error {:?} was lost{}", w, context()),
    }
    Ok(())
}

pub fn events(l: &[Log]) -> String {
    let mut s = String::new();
    for e in l.iter().take(200) {
        s.push_str(&format!("\n  {:?}", e));
    }
    s
}

// Sizes which random trees don't reach.

fn chain(n: usize, extra: &str) -> Elem {
    let mut e = Elem::new(Name::new("", "leaf"));
    e.push_text("x");
    for i in 0..n {
        let mut p = Elem::new(Name::new(if i % 97 == 0 { "urn:a" } else { "" }, "n"));
        p.push_text(extra);
        p.kids.push(Node::Elem(e));
        p.push_text(extra);
        e = p;
    }
    e
}

/// Skipping doesn't recurse.
fn deep_skip(thorough: bool, case: &mut Case) -> R {
    let n = if thorough { 6000 } else { 2500 };
    let mut tree = Elem::new(Name::new("", "r"));
    tree.kids.push(Node::Elem(chain(n, " ")));
    tree.push_text("after");
    tree.kids.push(Node::Elem(Elem::new(Name::new("", "z"))));
    for act in [Act::Drop, Act::Pass, Act::Null, Act::ReadString] {
        let plan = Plan {
            acts: vec![(act.clone(), Swallow::Yes)],
            abort: None,
            id: 1,
        };
        decide(
            &mut Src::replay(vec![]),
            &tree,
            (Act::Visit(plan), Swallow::No),
            Style::PLAIN,
            case,
        )?;
        case.also(true, format!("{:?}", act));
    }
    case.label("deep");
    Ok(())
}

fn nested(
    n: usize,
    last: &dyn Fn() -> (Act, Swallow),
    level: &dyn Fn(usize) -> Swallow,
) -> (Act, Swallow) {
    let mut a = last();
    for i in 0..n {
        a = (
            Act::Visit(Plan {
                acts: vec![a],
                abort: None,
                id: i as u32,
            }),
            level(i),
        );
    }
    a
}

fn deep_read(_: bool, case: &mut Case) -> R {
    let tree = chain(400, "t");
    for (i, last) in [Act::Drop, Act::ReadString, Act::Typed(Typed::Int)]
        .iter()
        .enumerate()
    {
        let a = nested(400, &|| (last.clone(), Swallow::No), &|_| Swallow::No);
        decide(&mut Src::replay(vec![]), &tree, a, Style::PLAIN, case)?;
        case.also(true, i);
    }
    case.label("deep");
    Ok(())
}

/// An error which arises far down is swallowed at every possible level.
fn deep_swallow(_: bool, case: &mut Case) -> R {
    let n = 40;
    let tree = chain(n, "t");
    for at in 0..n {
        for (j, last) in [
            Act::Typed(Typed::Int),
            Act::Typed(Typed::Derived),
            Act::Visit(Plan {
                acts: vec![],
                abort: Some(Abort::Text(0)),
                id: 999,
            }),
        ]
        .iter()
        .enumerate()
        {
            let a = nested(
                n,
                &|| {
                    (
                        last.clone(),
                        if at == 0 { Swallow::Yes } else { Swallow::No },
                    )
                },
                &|i| {
                    if i + 1 == at {
                        Swallow::Yes
                    } else {
                        Swallow::No
                    }
                },
            );
            decide(&mut Src::replay(vec![]), &tree, a, Style::PLAIN, case)?;
            case.also(true, (at, j));
        }
    }
    case.label("deep");
    Ok(())
}

fn wide(thorough: bool, case: &mut Case) -> R {
    let n = if thorough { 60_000 } else { 10_000 };
    let mut tree = Elem::new(Name::new("urn:a", "r"));
    let mut acts = Vec::new();
    for i in 0..n {
        let mut c = Elem::new(Name::new(if i % 3 == 0 { "urn:a" } else { "" }, "c"));
        c.push_text(&i.to_string());
        if i % 5 == 0 {
            c.kids.push(Node::Elem(Elem::new(Name::new("", "d"))));
        }
        tree.kids.push(Node::Elem(c));
        if i % 7 == 0 {
            tree.push_text("t");
        }
        acts.push((
            match i % 6 {
                0 => Act::Drop,
                1 => Act::Pass,
                2 => Act::ReadString,
                3 => Act::Typed(Typed::Int),
                4 => Act::Typed(Typed::Derived),
                _ => Act::Visit(Plan {
                    acts: vec![],
                    abort: Some(Abort::Before(0)),
                    id: i,
                }),
            },
            Swallow::Yes,
        ));
    }
    let plan = Plan {
        acts,
        abort: None,
        id: 0,
    };
    case.label("wide");
    decide(
        &mut Src::replay(vec![]),
        &tree,
        (Act::Visit(plan), Swallow::No),
        Style::PLAIN,
        case,
    )
}
