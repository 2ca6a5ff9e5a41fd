//! Writing by hand: random trees through the builder interface.

use crate::engine::{last_panic, Case, Fail, Prop, R};
use crate::io::Sink;
use crate::model::gen_string;
use crate::schema::{Name, XML_NS};
use crate::source::Src;
use crate::xmltree::{self, Elem, Tag};
use crate::{ensure, fail};
use static_xml::ser::{
    ElementBuilder, ElementWriter, Error, Serialize, SerializeField, SerializeRoot,
};
use static_xml::ExpandedNameRef;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::rc::Rc;
use std::sync::Mutex;

pub const PROPS: &[Prop] = &[Prop {
    id: "C10",
    level: "exploration",
    rule: "A case is a random tree of elements, each with random namespace requests (of 12 prefixes chosen to collide with each other and with generated ones, for 12 URLs including ones which need escaping, or random ones), attributes, text, and children written through every route (builder calls, SerializeField for T, Option, Vec, and text types). Some write an attribute twice, which must be refused. The output is read by an independent strict parser, and every declaration in it must be justified. Non-trivial: at least two namespaces are in use, and some namespace is requested on an element below the root.",
    assumptions: &[
        "every namespace in use is requested on the element itself or an ancestor, before it's used, and no element in between might have taken its prefix; otherwise the output must still not be wrong",
        "prefixes are names which don't start with xml, and none is requested for a reserved namespace or, unless empty, for no namespace",
    ],
    quick: 4_000_000,
    thorough: 20_000_000,
    run: |_, s, k| c10(s, k),
    fixed: |_| FIXED_TREES.len() + 2,
    run_fixed: |c, i, k| c10_fixed(c.thorough, i, k),
}];

/// An element to write.
#[derive(Clone, Debug)]
pub struct Node {
    pub name: Name,
    pub acts: Vec<Act>,
    pub kids: Vec<Kid>,
    pub misuse: Option<Misuse>,
}

#[derive(Clone, Debug)]
pub enum Act {
    /// Requests the prefix for the URL.
    Ns(&'static str, &'static str),
    Attr(&'static str, &'static str, String),
}

#[derive(Clone, Debug)]
pub struct Kid {
    pub body: Body,
    pub swallow: Swallow,
}

#[derive(Clone, Debug)]
pub enum Body {
    Text(String),
    /// By calling the builder.
    Direct(Node),
    /// Through `SerializeField`.
    Field(Node),
    Opt(Name, Option<Node>),
    Many(Name, Vec<Node>),
    /// A text type.
    Str(Name, String),
    Int(Name, i64),
}

/// What to do about an error from writing a child.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Swallow {
    No,
    /// Ignore it, and write what follows.
    GoOn,
    /// Ignore it, but write nothing more within the element.
    Stop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Misuse {
    /// Drop the builder rather than starting the element.
    Unstarted,
    /// Drop the writer after so many children rather than finishing the element.
    Unfinished(usize),
    /// Fail after so many namespaces and attributes.
    FailAttr(usize),
    /// Fail after so many children.
    FailChild(usize),
}

thread_local! {
    static SINK: RefCell<Rc<RefCell<Sink>>> = RefCell::new(Rc::new(RefCell::new(Sink::new())));
    /// How many bytes had been written when the first element was misused.
    static MISUSED: Cell<Option<usize>> = const { Cell::new(None) };
}

static INTERNED: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());

/// A reference which fits the builder interface; the same strings come up over and over.
pub fn intern(s: &str) -> &'static str {
    let mut i = INTERNED.lock().unwrap();
    if let Some(s) = i.get(s) {
        return s;
    }
    let s: &'static str = Box::leak(s.to_owned().into_boxed_str());
    i.insert(s);
    s
}

fn name_ref(n: &Name) -> ExpandedNameRef<'_> {
    ExpandedNameRef {
        namespace: &n.ns,
        local_name: &n.local,
    }
}

fn misused() {
    let at = SINK.with(|s| s.borrow().borrow().data.len());
    MISUSED.with(|m| {
        if m.get().is_none() {
            m.set(Some(at));
        }
    });
}

fn planned() -> Error {
    Error("planned".to_owned())
}

impl Node {
    fn attributes<'a>(&self, e: &mut ElementBuilder<'a>) -> Result<(), Error> {
        for (i, a) in self.acts.iter().enumerate() {
            crate::points::point();
            if self.misuse == Some(Misuse::FailAttr(i)) {
                misused();
                return Err(planned());
            }
            match a {
                Act::Ns(p, u) => e.namespace(p, u),
                Act::Attr(u, l, v) => e.attribute(
                    ExpandedNameRef {
                        namespace: u,
                        local_name: l,
                    },
                    v.clone(),
                )?,
            }
        }
        if self.misuse == Some(Misuse::FailAttr(self.acts.len())) {
            misused();
            return Err(planned());
        }
        Ok(())
    }

    fn direct(&self, parent: &mut ElementWriter) -> Result<(), Error> {
        let mut b = parent.element(name_ref(&self.name));
        self.attributes(&mut b)?;
        if self.misuse == Some(Misuse::Unstarted) {
            misused();
            drop(b);
            return Ok(());
        }
        let mut w = b.start()?;
        if let Some(Misuse::Unfinished(n)) = self.misuse {
            self.children(&mut w, n)?;
            misused();
            return Ok(());
        }
        self.children(&mut w, self.kids.len())?;
        w.finish()
    }

    fn children(&self, w: &mut ElementWriter, n: usize) -> Result<(), Error> {
        for (i, k) in self.kids.iter().enumerate() {
            crate::points::point();
            if i >= n {
                return Ok(());
            }
            if self.misuse == Some(Misuse::FailChild(i)) {
                misused();
                return Err(planned());
            }
            let r = match &k.body {
                Body::Text(t) => w.text(t),
                Body::Direct(n) => n.direct(w),
                Body::Field(n) => SerializeField::write(n, w, static_ref(&n.name)),
                Body::Opt(name, o) => o.write(w, static_ref(name)),
                Body::Many(name, v) => v.write(w, static_ref(name)),
                Body::Str(name, s) => SerializeField::write(s, w, static_ref(name)),
                Body::Int(name, s) => SerializeField::write(s, w, static_ref(name)),
            };
            match (r, k.swallow) {
                (Ok(()), _) | (Err(_), Swallow::GoOn) => {}
                (Err(_), Swallow::Stop) => return Ok(()),
                (Err(e), Swallow::No) => return Err(e),
            }
        }
        if self.misuse == Some(Misuse::FailChild(self.kids.len())) {
            misused();
            return Err(planned());
        }
        Ok(())
    }

    /// What it should look like when read back.
    pub fn elem(&self) -> Elem {
        let mut e = Elem::new(self.name.clone());
        for a in &self.acts {
            if let Act::Attr(u, l, v) = a {
                e.attrs.push((Name::new(u, l), v.clone()));
            }
        }
        for k in &self.kids {
            let mut add = |c| e.kids.push(xmltree::Node::Elem(c));
            match &k.body {
                Body::Text(t) => e.push_text(t),
                Body::Direct(n) | Body::Field(n) => add(n.elem()),
                Body::Opt(_, o) => o.iter().for_each(|n| add(n.elem())),
                Body::Many(_, v) => v.iter().for_each(|n| add(n.elem())),
                Body::Str(n, s) => {
                    let mut c = Elem::new(n.clone());
                    c.push_text(s);
                    add(c);
                }
                Body::Int(n, i) => {
                    let mut c = Elem::new(n.clone());
                    c.push_text(&i.to_string());
                    add(c);
                }
            }
        }
        e
    }

    pub fn nodes(&self) -> Vec<&Node> {
        let mut v = vec![self];
        for k in &self.kids {
            match &k.body {
                Body::Direct(n) | Body::Field(n) => v.extend(n.nodes()),
                Body::Opt(_, o) => o.iter().for_each(|n| v.extend(n.nodes())),
                Body::Many(_, m) => m.iter().for_each(|n| v.extend(n.nodes())),
                _ => {}
            }
        }
        v
    }

    /// Calls `f` on every node and whether it's written directly until it returns true.
    pub fn find_mut(&mut self, direct: bool, f: &mut dyn FnMut(&mut Node, bool) -> bool) -> bool {
        if f(self, direct) {
            return true;
        }
        for k in &mut self.kids {
            let done = match &mut k.body {
                Body::Direct(n) => n.find_mut(true, f),
                Body::Field(n) => n.find_mut(false, f),
                Body::Opt(_, Some(n)) => n.find_mut(false, f),
                Body::Many(_, m) => m.iter_mut().any(|n| n.find_mut(false, f)),
                _ => false,
            };
            if done {
                return true;
            }
        }
        false
    }
}

/// `SerializeField` wants a name which lives as long as the writer.
fn static_ref(n: &Name) -> ExpandedNameRef<'static> {
    ExpandedNameRef {
        namespace: intern(&n.ns),
        local_name: intern(&n.local),
    }
}

impl Serialize for Node {
    fn write_attributes(&self, e: &mut ElementBuilder) -> Result<(), Error> {
        self.attributes(e)
    }

    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        self.children(w, self.kids.len())
    }
}

impl SerializeRoot for Node {
    fn root(&self) -> ExpandedNameRef<'_> {
        name_ref(&self.name)
    }
}

/// Writes to the shared sink.
struct Shared(Rc<RefCell<Sink>>);

impl Write for Shared {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(buf)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        self.0.borrow_mut().flush()
    }
}

/// Returns the result, the sink thereafter, and where the first misuse was.
pub fn write_to(
    n: &Node,
    sink: Sink,
    indent: bool,
    decl: bool,
) -> (Result<(), Error>, Sink, Option<usize>) {
    let sink = Rc::new(RefCell::new(sink));
    SINK.with(|s| *s.borrow_mut() = sink.clone());
    MISUSED.with(|m| m.set(None));
    let r = static_xml::serialize(n)
        .perform_indent(indent)
        .write_document_declaration(decl)
        .to(Shared(sink.clone()));
    SINK.with(|s| *s.borrow_mut() = Rc::new(RefCell::new(Sink::new())));
    let sink = std::mem::replace(&mut *sink.borrow_mut(), Sink::new());
    (r, sink, MISUSED.with(|m| m.get()))
}

// Generation.

const URLS: &[&str] = &[
    "urn:a",
    "urn:b",
    "urn:c",
    "urn:d",
    "urn:ab",
    "http://x/?a=1&b=2",
    "u<v>\"w\"'x'",
    " urn : sp ",
    "urn:\t\n\r",
    "urn:é😀",
    "&amp;",
    "p",
    long!("a"),
    long!("b"),
];

const PREFIXES: &[&str] = &[
    "",
    "p",
    "q",
    "p2",
    "p3",
    "p22",
    "ns",
    "ns1",
    "ns2",
    "ns12",
    "é",
    "_a-b.c",
    long!("a"),
    long!("b"),
];

const LOCALS: &[&str] = &[
    "a",
    "b",
    "c",
    "xmlns",
    "xml",
    "é",
    "_",
    "a-b.c1",
    long!("a"),
    long!("b"),
];

fn gen_url(src: &mut Src) -> &'static str {
    match src.weighted(&[60, 30, 10]) {
        0 => src.pick(&URLS[..4]),
        1 => src.pick(URLS),
        _ => {
            let s = gen_string(src);
            if s.is_empty() || s.len() > 60 {
                "urn:x"
            } else {
                intern(&s)
            }
        }
    }
}

fn gen_prefix(src: &mut Src) -> &'static str {
    match src.weighted(&[60, 40]) {
        0 => src.pick(&PREFIXES[..4]),
        _ => src.pick(PREFIXES),
    }
}

/// Prefixes which may end up the same, once numbered, share this.
fn stem(p: &'static str) -> &'static str {
    if p.is_empty() {
        return "ns";
    }
    p.trim_end_matches(|c: char| c.is_ascii_digit())
}

pub struct Gen {
    /// The number of elements yet to write.
    pub left: usize,
    pub depth: usize,
    /// Percentage of children whose errors are swallowed.
    pub swallow: usize,
}

/// What's known of the namespaces at some point in the tree.
#[derive(Clone, Default)]
pub struct Avail {
    /// These surely are usable.
    sure: BTreeSet<&'static str>,
    /// All prefixes which were requested for each URL here or on an ancestor, since it's not worth
    /// knowing which one it goes by.
    stems: BTreeMap<&'static str, BTreeSet<&'static str>>,
}

impl Avail {
    fn request(&mut self, p: &'static str, u: &'static str) {
        self.stems.entry(u).or_default().insert(stem(p));
    }
}

fn pick_url(src: &mut Src, s: &BTreeSet<&'static str>) -> &'static str {
    let i = src.below(s.len());
    s.iter().nth(i).unwrap()
}

fn gen_name(src: &mut Src, avail: &Avail) -> Name {
    let ns = match src.weighted(&[30, 45, 25]) {
        0 => "",
        1 if !avail.sure.is_empty() => pick_url(src, &avail.sure),
        2 => gen_url(src),
        _ => "",
    };
    Name::new(ns, src.pick(LOCALS))
}

pub fn gen_node(src: &mut Src, g: &mut Gen, name: Name, avail: &Avail, depth: usize) -> Node {
    g.left = g.left.saturating_sub(1);
    let mut acts = Vec::new();
    let mut inner = Avail {
        sure: BTreeSet::new(),
        stems: avail.stems.clone(),
    };
    // What's requested or used here.
    let mut mine: BTreeSet<&'static str> = BTreeSet::new();
    if !name.ns.is_empty() && name.ns != XML_NS {
        let ns = intern(&name.ns);
        if !avail.sure.contains(ns) {
            let p = gen_prefix(src);
            acts.push(Act::Ns(p, ns));
            inner.request(p, ns);
        }
        mine.insert(ns);
    }
    let n = src.small(5);
    for _ in 0..n {
        let p = gen_prefix(src);
        let u = if !mine.is_empty() && src.pct(15) {
            pick_url(src, &mine)
        } else {
            gen_url(src)
        };
        acts.push(Act::Ns(p, u));
        inner.request(p, u);
        mine.insert(u);
    }
    let none = src.pct(4);
    if none {
        acts.push(Act::Ns("", ""));
    }
    if src.pct(30) {
        src.shuffle(&mut acts);
    }
    let n = src.small(4);
    let mut seen: BTreeSet<(&str, &str)> = BTreeSet::new();
    for _ in 0..n {
        let u: &'static str = match src.weighted(&[30, 40, 25, 5]) {
            0 => "",
            1 if !mine.is_empty() => pick_url(src, &mine),
            2 if !avail.sure.is_empty() => pick_url(src, &avail.sure),
            3 => XML_NS,
            _ => "",
        };
        let l: &'static str = match u {
            XML_NS => src.pick(&["lang", "space", "id", "a"]),
            "" => loop {
                let l = *src.pick(LOCALS);
                // That would be a declaration.
                if l != "xmlns" {
                    break l;
                }
            },
            _ => src.pick(LOCALS),
        };
        if !seen.insert((u, l)) {
            continue;
        }
        if !u.is_empty() && u != XML_NS {
            mine.insert(u);
        }
        let v = gen_string(src);
        acts.push(Act::Attr(u, l, v));
    }
    // What children can count on.
    for u in &avail.sure {
        let stems = &inner.stems[u];
        let clash = mine
            .iter()
            .any(|v| v != u && !stems.is_disjoint(&inner.stems[v]))
            || (stems.contains("ns") && (none || name.ns.is_empty()));
        if !clash {
            inner.sure.insert(u);
        }
    }
    inner.sure.extend(mine);
    let mut kids = Vec::new();
    if depth < g.depth {
        let n = src.small(6);
        for _ in 0..n {
            if src.pct(20) {
                kids.push(Kid {
                    body: Body::Text(gen_string(src)),
                    swallow: gen_swallow(src, g),
                });
                continue;
            }
            if g.left == 0 {
                break;
            }
            let name = gen_name(src, &inner);
            let declared =
                name.ns.is_empty() || name.ns == XML_NS || inner.sure.contains(name.ns.as_str());
            let body = match src.weighted(&[45, 20, 8, 12, 8, 7]) {
                0 => Body::Direct(gen_node(src, g, name, &inner, depth + 1)),
                1 => Body::Field(gen_node(src, g, name, &inner, depth + 1)),
                2 => {
                    let o = if src.pct(70) {
                        Some(gen_node(src, g, name.clone(), &inner, depth + 1))
                    } else {
                        None
                    };
                    Body::Opt(name, o)
                }
                3 => {
                    let n = src.small(4);
                    let mut v = Vec::new();
                    for _ in 0..n {
                        v.push(gen_node(src, g, name.clone(), &inner, depth + 1));
                    }
                    Body::Many(name, v)
                }
                4 if declared => {
                    g.left = g.left.saturating_sub(1);
                    Body::Str(name, gen_string(src))
                }
                _ if declared => {
                    g.left = g.left.saturating_sub(1);
                    Body::Int(name, src.below(2000) as i64 - 1000)
                }
                _ => continue,
            };
            kids.push(Kid {
                body,
                swallow: gen_swallow(src, g),
            });
        }
    }
    Node {
        name,
        acts,
        kids,
        misuse: None,
    }
}

fn gen_swallow(src: &mut Src, g: &Gen) -> Swallow {
    if g.swallow == 0 || !src.pct(g.swallow) {
        Swallow::No
    } else {
        *src.pick(&[Swallow::GoOn, Swallow::Stop])
    }
}

pub fn gen_tree(src: &mut Src, swallow: usize) -> Node {
    let mut g = Gen {
        left: 2 + src.small(24),
        depth: 1 + src.small(7),
        swallow,
    };
    let avail = Avail::default();
    let name = gen_name(src, &avail);
    gen_node(src, &mut g, name, &avail, 0)
}

// C10.

fn strip_text(e: &Elem) -> Elem {
    let mut out = Elem::new(e.name.clone());
    out.attrs = e.attrs.clone();
    out.kids = e
        .elems()
        .map(|c| xmltree::Node::Elem(strip_text(c)))
        .collect();
    out
}

/// Checks that every declaration is needed, in document order.
pub fn declarations(
    n: Option<&Node>,
    name: &Name,
    e: &Elem,
    tags: &mut std::slice::Iter<Tag>,
    outer: &BTreeMap<String, String>,
) -> R {
    let tag = tags.next().expect("as many tags as elements");
    let mut scope = outer.clone();
    let no_acts = Vec::new();
    let acts = n.map(|n| &n.acts).unwrap_or(&no_acts);
    let used = |u: &str| {
        name.ns == u
            || acts
                .iter()
                .any(|a| matches!(a, Act::Attr(v, _, _) if *v == u))
    };
    let requested = |u: &str| acts.iter().any(|a| matches!(a, Act::Ns(_, v) if *v == u));
    for (p, u) in &tag.decls {
        ensure!(
            outer.get(p).map(|s| s.as_str()).unwrap_or("") != u,
            "{} declares {:?} as {:?}, as is in scope already",
            name,
            p,
            u
        );
        ensure!(
            requested(u) || used(u),
            "{} declares {:?} as {:?}, which nobody asked for",
            name,
            p,
            u
        );
        scope.insert(p.clone(), u.clone());
    }
    // In the order of the tag.
    ensure!(
        tag.attrs.len() == e.attrs.len(),
        "{} has {} attributes, not {}",
        name,
        tag.attrs.len(),
        e.attrs.len()
    );
    let mut first: BTreeSet<&str> = BTreeSet::new();
    // Requested as the default, which doesn't suit an attribute: the first other request counts.
    let mut unprefixed: BTreeSet<&str> = BTreeSet::new();
    let attribute_in = |u: &str| {
        acts.iter()
            .any(|a| matches!(a, Act::Attr(v, _, _) if *v == u))
    };
    if outer.values().any(|v| *v == name.ns)
        && outer.iter().all(|(p, v)| *v != name.ns || p.is_empty())
        && attribute_in(&name.ns)
    {
        first.insert(&name.ns);
        unprefixed.insert(&name.ns);
    }
    for a in acts {
        match a {
            Act::Attr(u, _, _) => {
                first.insert(u);
            }
            Act::Ns(p, u) => {
                let form = !p.is_empty() && unprefixed.remove(u);
                if !first.insert(u) && !form {
                    continue; // no longer the first to mention it.
                }
                if *u == name.ns && outer.values().any(|v| v == u) && !form {
                    continue; // goes by the parent's prefix.
                }
                if p.is_empty() && attribute_in(u) {
                    unprefixed.insert(u);
                }
                if scope.get(*p).map_or("", |s| s.as_str()) == *u {
                    continue;
                }
                // By what came first: the element's own name if it goes by its parent's prefix, or
                // what was mentioned before.
                let taken = match scope.get(*p).map(|s| s.as_str()) {
                    Some(v) => {
                        v.is_empty()
                            || (v == name.ns && outer.values().any(|o| o == v))
                            || first.contains(v)
                    }
                    None => false,
                };
                let unsuitable = p.is_empty()
                    && (name.ns.is_empty()
                        || acts.iter().any(|a| matches!(a, Act::Ns("", "")))
                        || attribute_in(u));
                ensure!(
                    taken || unsuitable,
                    "{} asked for {:?} as {:?} and might have gotten it; in scope are {:?}",
                    name,
                    p,
                    u,
                    scope
                );
                ensure!(
                    scope.values().any(|v| v == u),
                    "{} asked for {:?}, which has no prefix; in scope are {:?}",
                    name,
                    u,
                    scope
                );
            }
        }
    }
    let mut elems = e.elems();
    if let Some(n) = n {
        for k in &n.kids {
            let mut down = |n: Option<&Node>, name: &Name| {
                declarations(
                    n,
                    name,
                    elems.next().expect("compared before"),
                    tags,
                    &scope,
                )
            };
            match &k.body {
                Body::Text(_) => {}
                Body::Direct(n) | Body::Field(n) => down(Some(n), &n.name)?,
                Body::Opt(_, o) => {
                    if let Some(n) = o {
                        down(Some(n), &n.name)?
                    }
                }
                Body::Many(_, v) => {
                    for n in v {
                        down(Some(n), &n.name)?
                    }
                }
                Body::Str(n, _) | Body::Int(n, _) => down(None, n)?,
            }
        }
    }
    Ok(())
}

fn plain(n: &Node) -> Result<String, Fail> {
    let written = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        write_to(n, Sink::new(), false, true)
    }));
    let (r, sink, _) = match written {
        Ok(w) => w,
        Err(_) => fail!("panicked: {}\nwriting {:#?}", last_panic(), n),
    };
    if let Err(e) = r {
        fail!("can't write {:#?}: {}", n, e);
    }
    String::from_utf8(sink.data).map_err(|e| Fail {
        msg: format!("not UTF-8: {}", e),
    })
}

fn c10_decide(n: &Node) -> R {
    let out = plain(n)?;
    let want = n.elem();
    let (got, tags) = match xmltree::parse_tags(&out) {
        Ok(x) => x,
        Err(e) => fail!("ill-formed output: {}\nof {:#?}", e, n),
    };
    ensure!(
        got.canonical() == want.canonical(),
        "wrote\n{}\nwhich means\n{}\nrather than\n{}\nof {:#?}",
        out,
        got.show(),
        want.show(),
        n
    );
    declarations(Some(n), &n.name, &got, &mut tags.iter(), &BTreeMap::new()).map_err(|f| Fail {
        msg: format!("{}\nin {}\nof {:#?}", f.msg, out, n),
    })
}

/// Calls `f` on some element.
fn at_some_node(src: &mut Src, n: &mut Node, f: &mut dyn FnMut(&mut Src, &mut Node)) {
    let mut at = src.below(n.nodes().len());
    n.find_mut(false, &mut |n, _| {
        if at == 0 {
            f(src, n);
            return true;
        }
        at -= 1;
        false
    });
}

fn c10(src: &mut Src, case: &mut Case) -> R {
    let mut n = gen_tree(src, 0);
    if src.below(1000) == 999 {
        case.label("many attributes");
        at_some_node(src, &mut n, &mut |src, n| {
            let more = [70, 300][src.small(2)];
            let at = if src.pct(50) { 0 } else { n.acts.len() };
            let more = (0..more).map(|i| Act::Attr("", intern(&format!("w{}", i)), String::new()));
            n.acts.splice(at..at, more);
        });
    }
    let nodes = n.nodes();
    let mut urls: BTreeSet<&str> = BTreeSet::new();
    let mut below = false;
    for (i, m) in nodes.iter().enumerate() {
        urls.insert(&m.name.ns);
        for a in &m.acts {
            match a {
                Act::Ns(_, u) => {
                    below |= i > 0;
                    urls.insert(u);
                }
                Act::Attr(u, _, _) => {
                    urls.insert(u);
                }
            }
        }
    }
    urls.remove("");
    case.nontrivial = urls.len() >= 2 && below;
    case.key(format!("{:?}", n));
    case.label(if below {
        "requests below the root"
    } else {
        "requests at the root only"
    });
    let size = nodes.len();
    case.label(match size {
        0..=2 => "1-2 elements",
        3..=8 => "3-8 elements",
        _ => "more elements",
    });
    match src.weighted(&[80, 10, 5, 5]) {
        0 => c10_decide(&n)?,
        3 => {
            // One attribute twice.
            let mut done = false;
            at_some_node(src, &mut n, &mut |src, n| {
                let attrs = n.acts.iter().enumerate();
                let attrs: Vec<usize> = attrs
                    .filter(|(_, a)| matches!(a, Act::Attr(..)))
                    .map(|(i, _)| i)
                    .collect();
                if attrs.is_empty() {
                    return;
                }
                let i = attrs[attrs.len() - 1 - src.below(attrs.len())];
                if let Act::Attr(u, l, v) = &n.acts[i] {
                    let v = match src.pct(50) {
                        true => v.clone(),
                        false => gen_string(src),
                    };
                    let a = Act::Attr(u, l, v);
                    let j = n.acts.len() - src.below(n.acts.len() - i);
                    n.acts.insert(j, a);
                    done = true;
                }
            });
            if !done {
                return c10_decide(&n);
            }
            case.label("an attribute twice");
            let (r, sink, _) = write_to(&n, Sink::new(), false, true);
            ensure!(
                r.is_err(),
                "wrote\n{}\nthough an attribute is there twice: {:#?}",
                String::from_utf8_lossy(&sink.data),
                n
            );
        }
        1 => {
            // Other ways to write the same thing.
            c10_decide(&n)?;
            let out = plain(&n)?;
            let ser = static_xml::serialize(&n);
            for _ in 0..2 {
                match ser.to_string() {
                    Ok(s) => ensure!(s == out, "to_string gave\n{}\nand to\n{}", s, out),
                    Err(e) => fail!("to_string failed, but to didn't: {}", e),
                }
            }
            match ser.write_document_declaration(false).to_string() {
                Ok(s) => ensure!(
                    out.ends_with(&s)
                        && xmltree::parse(&s).map(|e| e.canonical()) == Ok(n.elem().canonical()),
                    "without the declaration:\n{}\nwith it:\n{}",
                    s,
                    out
                ),
                Err(e) => fail!("failed without a declaration: {}", e),
            }
            match ser.perform_indent(true).to_string() {
                Ok(s) => ensure!(
                    xmltree::parse(&s).map(|e| strip_text(&e).canonical())
                        == Ok(strip_text(&n.elem()).canonical()),
                    "indented:\n{}\nnot indented:\n{}",
                    s,
                    out
                ),
                Err(e) => fail!("failed with indentation: {}", e),
            }
            case.label("other ways");
        }
        _ => {
            // Leave out one request. Whatever happens, the output mustn't be wrong.
            let total: usize = n
                .nodes()
                .iter()
                .map(|n| n.acts.iter().filter(|a| matches!(a, Act::Ns(..))).count())
                .sum();
            if total > 0 {
                let mut i = src.below(total);
                n.find_mut(false, &mut |n, _| {
                    for j in 0..n.acts.len() {
                        if matches!(n.acts[j], Act::Ns(..)) {
                            if i == 0 {
                                n.acts.remove(j);
                                return true;
                            }
                            i -= 1;
                        }
                    }
                    false
                });
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                write_to(&n, Sink::new(), false, true)
            }));
            if let Ok((Ok(()), sink, _)) = r {
                let out = String::from_utf8_lossy(&sink.data).into_owned();
                match xmltree::parse(&out) {
                    Ok(e) => ensure!(
                        e.canonical() == n.elem().canonical(),
                        "wrote\n{}\nwhich means\n{}\nrather than\n{}",
                        out,
                        e.show(),
                        n.elem().show()
                    ),
                    Err(e) => fail!("ill-formed output: {}\nof {:#?}", e, n),
                }
            }
            case.label("perhaps undeclared");
        }
    }
    case.sample(|| plain(&n).unwrap_or_default());
    Ok(())
}

type Tiny = (
    &'static str,
    &'static [(&'static str, &'static str)],
    &'static [(&'static str, &'static str)],
);

/// Chains of elements: each one's namespace, requests, and attributes (URL, local name).
const FIXED_TREES: &[&[Tiny]] = &[
    // Overridden and restored.
    &[
        ("", &[("p", "urn:a")], &[("urn:a", "x")]),
        ("", &[("p", "urn:b")], &[("urn:b", "x")]),
        ("", &[("p", "urn:a")], &[("urn:a", "x")]),
    ],
    // A default namespace, undeclared and restored.
    &[
        ("urn:a", &[("", "urn:a")], &[]),
        ("", &[], &[]),
        ("urn:a", &[("", "urn:a")], &[]),
        ("", &[("", "urn:a")], &[("urn:a", "x")]),
    ],
    // URLs which need escaping.
    &[
        ("a&b", &[("p", "a&b"), ("q", "<\"'>")], &[("<\"'>", "x")]),
        ("<\"'>", &[], &[("a&b", "x")]),
    ],
    // Generated prefixes which collide with requested ones.
    &[
        (
            "urn:a",
            &[("", "urn:a"), ("ns1", "urn:b"), ("ns1", "urn:c")],
            &[("urn:a", "x"), ("urn:b", "x"), ("urn:c", "x")],
        ),
        (
            "urn:c",
            &[("ns1", "urn:d")],
            &[("urn:a", "y"), ("urn:d", "y")],
        ),
    ],
    // The same name in different namespaces.
    &[
        (
            "",
            &[("p", "urn:a"), ("p", "urn:b"), ("p2", "urn:c")],
            &[("", "x"), ("urn:a", "x"), ("urn:b", "x"), ("urn:c", "x")],
        ),
        ("urn:b", &[("p", "urn:d")], &[("", "x"), ("urn:d", "x")]),
    ],
    // A namespace which is the default and is also needed with a prefix.
    &[
        ("urn:a", &[("", "urn:a")], &[]),
        ("urn:a", &[], &[("urn:a", "x")]),
        ("urn:a", &[("q", "urn:a")], &[]),
        ("urn:a", &[("", "urn:a"), ("q", "urn:a")], &[("urn:a", "x")]),
    ],
    &[
        (XML_NS, &[], &[(XML_NS, "lang")]),
        (
            "",
            &[("p", "urn:a")],
            &[(XML_NS, "space"), ("urn:a", "space")],
        ),
        (XML_NS, &[], &[]),
    ],
];

fn chain(c: &[Tiny]) -> Node {
    let (ns, reqs, attrs) = c[0];
    let mut acts: Vec<Act> = reqs.iter().map(|(p, u)| Act::Ns(p, u)).collect();
    acts.extend(attrs.iter().map(|(u, l)| Act::Attr(u, l, "v".to_owned())));
    let mut kids = Vec::new();
    if c.len() > 1 {
        // Twice, since the first mustn't affect the second.
        for _ in 0..2 {
            kids.push(Kid {
                body: Body::Direct(chain(&c[1..])),
                swallow: Swallow::No,
            });
        }
    }
    Node {
        name: Name::new(ns, "e"),
        acts,
        kids,
        misuse: None,
    }
}

fn c10_fixed(thorough: bool, i: usize, case: &mut Case) -> R {
    case.nontrivial = true;
    case.key(i);
    if let Some(c) = FIXED_TREES.get(i) {
        return c10_decide(&chain(c));
    }
    match i - FIXED_TREES.len() {
        0 => {
            // A deep chain in which each element asks for the same prefix.
            let n = if thorough { 900 } else { 300 };
            let mut node: Option<Node> = None;
            for d in (0..n).rev() {
                let u = URLS[d % 5];
                let mut kids = Vec::new();
                if let Some(n) = node.take() {
                    kids.push(Kid {
                        body: Body::Direct(n),
                        swallow: Swallow::No,
                    });
                }
                node = Some(Node {
                    name: Name::new(if d % 3 == 0 { "" } else { u }, "e"),
                    acts: vec![
                        Act::Ns(PREFIXES[d % 2], u),
                        Act::Attr(if d % 4 == 0 { u } else { "" }, "x", d.to_string()),
                    ],
                    kids,
                    misuse: None,
                });
            }
            c10_decide(&node.unwrap())
        }
        _ => {
            // Many namespaces which all want the same prefix.
            let n = if thorough { 600 } else { 150 };
            let mut acts = Vec::new();
            for i in 0..n {
                acts.push(Act::Ns("p", intern(&format!("urn:{}", i))));
            }
            for i in 0..n {
                acts.push(Act::Attr(intern(&format!("urn:{}", i)), "x", i.to_string()));
            }
            c10_decide(&Node {
                name: Name::new("urn:5", "e"),
                acts,
                kids: vec![Kid {
                    body: Body::Str(Name::new("urn:7", "f"), "t".to_owned()),
                    swallow: Swallow::No,
                }],
                misuse: None,
            })
        }
    }
}
