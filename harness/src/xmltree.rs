//! XML documents as trees of expanded names: writing one in many spellings, and reading one back
//! strictly.

use crate::schema::{Name, XML_NS};
use crate::source::Src;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Elem {
    pub name: Name,
    pub attrs: Vec<(Name, String)>,
    pub kids: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

impl Elem {
    pub fn new(name: Name) -> Self {
        Elem {
            name,
            attrs: Vec::new(),
            kids: Vec::new(),
        }
    }

    pub fn attr(&self, name: &Name) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(n, _)| n == name)
            .map(|(_, v)| v.as_str())
    }

    pub fn push_text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        if let Some(Node::Text(last)) = self.kids.last_mut() {
            last.push_str(t);
        } else {
            self.kids.push(Node::Text(t.to_owned()));
        }
    }

    /// The number of elements.
    pub fn size(&self) -> usize {
        1 + self.elems().map(|e| e.size()).sum::<usize>()
    }

    pub fn depth(&self) -> usize {
        1 + self.elems().map(|e| e.depth()).max().unwrap_or(0)
    }

    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Node::Elem(e) => Some(e),
            _ => None,
        })
    }

    /// Puts attributes in a fixed order and merges adjacent text, since neither means anything.
    pub fn canonical(&self) -> Elem {
        let mut out = Elem::new(self.name.clone());
        out.attrs = self.attrs.clone();
        out.attrs.sort();
        for k in &self.kids {
            match k {
                Node::Text(t) => out.push_text(t),
                Node::Elem(e) => out.kids.push(Node::Elem(e.canonical())),
            }
        }
        out
    }

    /// The `i`th element in document order.
    pub fn nth_mut(&mut self, i: usize) -> &mut Elem {
        fn go<'a>(e: &'a mut Elem, i: &mut usize) -> Option<&'a mut Elem> {
            if *i == 0 {
                return Some(e);
            }
            *i -= 1;
            for k in &mut e.kids {
                if let Node::Elem(c) = k {
                    if let Some(r) = go(c, i) {
                        return Some(r);
                    }
                }
            }
            None
        }
        let mut i = i;
        go(self, &mut i).expect("index out of range")
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s, 0);
        s
    }

    fn show_to(&self, out: &mut String, depth: usize) {
        use std::fmt::Write;
        let pad = "  ".repeat(depth.min(20));
        let _ = write!(out, "{}<{}", pad, self.name);
        for (n, v) in &self.attrs {
            let _ = write!(out, " {}={:?}", n, clip(v));
        }
        out.push_str(">\n");
        for k in &self.kids {
            match k {
                Node::Text(t) => {
                    let _ = writeln!(out, "{}  {:?}", pad, clip(t));
                }
                Node::Elem(e) => e.show_to(out, depth + 1),
            }
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() <= 400 {
        return s.to_owned();
    }
    let head: String = s.chars().take(400).collect();
    format!("{}… ({} bytes)", head, s.len())
}

/// Makes some element much bigger than tests would: by attributes, children, or text of, or levels
/// below, an unknown child.
pub fn inflate(src: &mut Src, root: &mut Elem) -> &'static str {
    let size = root.size();
    let at = if src.pct(50) { 0 } else { src.below(size) };
    let kind = src.below(6);
    let n = [70, 300, 1100][src.small(3)];
    let first = src.pct(50);
    let e = root.nth_mut(at);
    let unknown = || Elem::new(Name::new("urn:w", "w"));
    let end = if first { 0 } else { e.kids.len() };
    match kind {
        0 => {
            if e.attr(&Name::new("", "w0")).is_some() {
                return "nothing";
            }
            let more = (0..n).map(|i| (Name::new("", &format!("w{}", i)), String::new()));
            let end = if first { 0 } else { e.attrs.len() };
            e.attrs.splice(end..end, more);
            "many attributes"
        }
        1 => {
            let mut more = Vec::new();
            for i in 0..n {
                more.push(Node::Elem(unknown()));
                if i % 3 == 0 {
                    more.push(Node::Text("\n".to_owned()));
                }
            }
            e.kids.splice(end..end, more);
            "many unknown elements"
        }
        2 => {
            let mut w = unknown();
            w.push_text(&"long text ".repeat(n * 10));
            e.kids.insert(end, Node::Elem(w));
            "a long line"
        }
        3 => {
            let mut w = unknown();
            w.push_text(&"\n".repeat(n * 4));
            e.kids.insert(end, Node::Elem(w));
            "many lines"
        }
        4 => {
            let mut w = unknown();
            for _ in 0..n.min(300) {
                let mut outer = unknown();
                outer.kids.push(Node::Elem(w));
                w = outer;
            }
            e.kids.insert(end, Node::Elem(w));
            "many levels"
        }
        _ => {
            let small = |k: &Node| matches!(k, Node::Elem(c) if c.size() < 20);
            if let Some(k) = e.kids.iter().find(|k| small(k)).cloned() {
                e.kids.splice(end..end, std::iter::repeat(k).take(n));
            }
            "one child many times"
        }
    }
}

// Rendering.

/// What may vary between spellings of a document.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Percentages.
    pub noise: usize,
    pub ns: usize,
    pub chars: usize,
    /// Whether anything can appear outside of the root.
    pub outside: bool,
}

impl Style {
    pub const PLAIN: Style = Style {
        noise: 0,
        ns: 0,
        chars: 0,
        outside: false,
    };
    pub const VARIED: Style = Style {
        noise: 12,
        ns: 20,
        chars: 20,
        outside: true,
    };
}

/// Where an element ended up.
#[derive(Clone, Debug)]
pub struct Placed {
    /// Of the start tag; zero-based row and column.
    pub row: u64,
    pub col: u64,
    /// Byte offsets of the whole element.
    pub start: usize,
    pub end: usize,
    /// Where the start tag ends.
    pub open: usize,
    /// Row and column of the end tag, if there's a separate one.
    pub close: Option<(u64, u64)>,
    pub prefix: String,
    /// All namespace mappings in scope except the built-in ones. An undeclared default namespace
    /// may be missing or map to the empty string.
    pub scope: BTreeMap<String, String>,
    /// The attributes in the order in which they stand.
    pub attrs: Vec<Name>,
    pub kids: Vec<Placed>,
}

pub struct Doc {
    pub text: String,
    pub root: Placed,
}

struct Renderer<'a> {
    src: &'a mut Src,
    style: Style,
    out: String,
    row: u64,
    col: u64,
    counted: usize,
}

/// Includes the prefixes which the derived types like to use.
const PREFIXES: &[&str] = &[
    "", "p", "q", "a", "b", "ns1", "ns", "foo", "pé", "_", "B", "x-y.z",
];

pub fn render(src: &mut Src, e: &Elem, style: Style) -> Doc {
    let mut r = Renderer {
        src,
        style,
        out: String::new(),
        row: 0,
        col: 0,
        counted: 0,
    };
    r.prolog(&e.name);
    let root = r.elem(e, &BTreeMap::new());
    r.epilog();
    Doc { text: r.out, root }
}

impl<'a> Renderer<'a> {
    fn chance(&mut self, p: usize) -> bool {
        p > 0 && self.src.pct(p)
    }

    fn pos(&mut self) -> (u64, u64) {
        for c in self.out[self.counted..].chars() {
            if c == '\n' {
                self.row += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.counted = self.out.len();
        (self.row, self.col)
    }

    fn ws(&mut self) {
        let n = 1 + self.src.small(3);
        for _ in 0..n {
            let c = *self.src.pick(&[' ', '\n', '\t']);
            self.out.push(c);
        }
    }

    fn opt_ws(&mut self) {
        if self.chance(self.style.noise / 2) {
            self.ws();
        }
    }

    fn comment(&mut self) {
        let body = *self.src.pick(&[
            "c", "", " <a> ", " & ", "]]>", "a - b", "é", "\n", "<?xml?>", "' \"",
        ]);
        self.out.push_str("<!--");
        self.out.push_str(body);
        self.out.push_str("-->");
    }

    fn pi(&mut self) {
        let body = *self.src.pick(&[
            "x",
            "x y",
            "x <a>",
            "x ?",
            "xmlx y='1'",
            "x-y &",
            "x é",
            "x ]]>",
        ]);
        self.out.push_str("<?");
        self.out.push_str(body);
        self.out.push_str("?>");
    }

    fn noise(&mut self) {
        while self.chance(self.style.noise) {
            if self.src.pct(50) {
                self.pi();
            } else {
                self.comment();
            }
        }
    }

    fn prolog(&mut self, root: &Name) {
        if !self.style.outside {
            return;
        }
        match self.src.weighted(&[50, 20, 15, 15]) {
            0 => {}
            1 => self.out.push_str("<?xml version=\"1.0\"?>"),
            2 => self
                .out
                .push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>"),
            _ => self
                .out
                .push_str("<?xml version='1.0' encoding='UTF-8' standalone='yes' ?>"),
        }
        if self.chance(30) {
            self.ws();
        }
        self.noise();
        if self.chance(10) {
            self.out.push_str("<!DOCTYPE ");
            self.out.push_str(&root.local);
            self.out.push('>');
            if self.chance(30) {
                self.ws();
            }
            self.noise();
        }
        if self.chance(30) {
            self.ws();
        }
    }

    fn epilog(&mut self) {
        if !self.style.outside {
            return;
        }
        if self.chance(30) {
            self.ws();
        }
        self.noise();
        if self.chance(20) {
            self.ws();
        }
    }

    fn elem(&mut self, e: &Elem, outer: &BTreeMap<String, String>) -> Placed {
        let mut decls: Vec<(String, String)> = Vec::new();
        let mut used: Vec<String> = Vec::new();
        let prefix = self.prefix(&e.name.ns, outer, &mut decls, &mut used, true);
        let mut attrs: Vec<(String, String, Option<Name>)> = Vec::new();
        for (n, v) in &e.attrs {
            let p = if n.ns.is_empty() {
                String::new()
            } else if n.ns == XML_NS {
                "xml".to_owned()
            } else {
                self.prefix(&n.ns, outer, &mut decls, &mut used, false)
            };
            attrs.push((qname(&p, &n.local), v.clone(), Some(n.clone())));
        }
        // Declarations which nothing here needs, and which may get in the way of descendants.
        while self.chance(self.style.ns / 2) {
            let p = self.src.pick(PREFIXES).to_string();
            if used.contains(&p) || decls.iter().any(|(q, _)| *q == p) {
                break;
            }
            let url = self
                .src
                .pick(&["urn:shadow", "http://example.com/a", "urn:x", "&<>\"'"])
                .to_string();
            decls.push((p, url));
        }
        let mut scope = outer.clone();
        for (p, u) in &decls {
            scope.insert(p.clone(), u.clone());
        }
        for (p, u) in decls {
            let n = if p.is_empty() {
                "xmlns".to_owned()
            } else {
                qname("xmlns", &p)
            };
            attrs.push((n, u, None));
        }
        if self.style.ns > 0 {
            self.src.shuffle(&mut attrs);
        }

        let start = self.out.len();
        let (row, col) = self.pos();
        let q = qname(&prefix, &e.name.local);
        self.out.push('<');
        self.out.push_str(&q);
        let order = attrs.iter().filter_map(|(_, _, n)| n.clone()).collect();
        for (n, v, _) in attrs {
            if self.chance(self.style.noise) {
                self.ws();
            } else {
                self.out.push(' ');
            }
            self.out.push_str(&n);
            self.opt_ws();
            self.out.push('=');
            self.opt_ws();
            let quote = if self.chance(50) { '\'' } else { '"' };
            self.out.push(quote);
            self.chars(&v, Some(quote));
            self.out.push(quote);
        }
        self.opt_ws();
        let mut kids = Vec::new();
        let open;
        let mut close = None;
        if e.kids.is_empty() && !self.chance(50) {
            self.out.push_str("/>");
            open = self.out.len();
        } else {
            self.out.push('>');
            open = self.out.len();
            self.noise();
            for k in &e.kids {
                match k {
                    Node::Elem(c) => kids.push(self.elem(c, &scope)),
                    Node::Text(t) => self.text(t),
                }
                self.noise();
            }
            close = Some(self.pos());
            self.out.push_str("</");
            self.out.push_str(&q);
            self.opt_ws();
            self.out.push('>');
        }
        Placed {
            row,
            col,
            start,
            end: self.out.len(),
            open,
            close,
            prefix,
            scope,
            attrs: order,
            kids,
        }
    }

    /// Finds or makes a prefix for `ns`.
    fn prefix(
        &mut self,
        ns: &str,
        outer: &BTreeMap<String, String>,
        decls: &mut Vec<(String, String)>,
        used: &mut Vec<String>,
        elem: bool,
    ) -> String {
        let lookup = |decls: &[(String, String)], p: &str| -> String {
            decls
                .iter()
                .find(|(q, _)| q == p)
                .map(|(_, u)| u.clone())
                .or_else(|| outer.get(p).cloned())
                .unwrap_or_default()
        };
        if ns.is_empty() {
            // Only reached for an element, and before any other declaration.
            if lookup(decls, "") != "" || self.chance(self.style.ns / 4) {
                decls.push((String::new(), String::new()));
            }
            used.push(String::new());
            return String::new();
        }
        let mut candidates: Vec<String> = outer
            .keys()
            .chain(decls.iter().map(|(p, _)| p))
            .filter(|p| elem || !p.is_empty())
            .filter(|p| lookup(decls, p) == ns)
            .cloned()
            .collect();
        candidates.dedup();
        if !candidates.is_empty() && !self.chance(self.style.ns) {
            let p = self.src.pick(&candidates).clone();
            used.push(p.clone());
            return p;
        }
        let mut options: Vec<String> = PREFIXES
            .iter()
            .filter(|p| elem || !p.is_empty())
            .map(|p| p.to_string())
            .filter(|p| !used.contains(p) && !decls.iter().any(|(q, _)| q == p))
            .collect();
        options.extend((0..).map(|i| format!("gen{}", i)).find(|p| {
            !used.contains(p) && !outer.contains_key(p) && !decls.iter().any(|(q, _)| q == p)
        }));
        let p = if self.style.ns == 0 {
            // Prefer a prefix over the default namespace, and one which isn't in use.
            options
                .iter()
                .find(|p| !p.is_empty() && !outer.contains_key(*p))
                .unwrap()
                .clone()
        } else {
            self.src.pick(&options).clone()
        };
        decls.push((p.clone(), ns.to_owned()));
        used.push(p.clone());
        p
    }

    fn text(&mut self, t: &str) {
        if !self.chance(self.style.chars) {
            self.chars(t, None);
            return;
        }
        // Break it up.
        let chars: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            let n = 1 + self.src.small((chars.len() - i).min(12));
            let piece: String = chars[i..(i + n).min(chars.len())].iter().collect();
            i += n;
            if self.src.pct(30) && !piece.contains("]]>") && !piece.contains('\r') {
                self.out.push_str("<![CDATA[");
                self.out.push_str(&piece);
                self.out.push_str("]]>");
            } else {
                self.chars(&piece, None);
            }
            self.noise();
        }
        if self.chance(10) {
            self.out.push_str("<![CDATA[]]>");
        }
    }

    fn chars(&mut self, s: &str, quote: Option<char>) {
        use std::fmt::Write;
        for c in s.chars() {
            let refd = self.style.chars > 0 && s.len() < 200 && self.chance(self.style.chars / 4);
            let must = matches!(c, '<' | '&' | '\r' | '>')
                || Some(c) == quote
                || (quote.is_some() && matches!(c, '\n' | '\t'));
            if !refd && !must {
                self.out.push(c);
                continue;
            }
            let named = match c {
                '<' => Some("&lt;"),
                '>' => Some("&gt;"),
                '&' => Some("&amp;"),
                '"' => Some("&quot;"),
                '\'' => Some("&apos;"),
                _ => None,
            };
            let how = if refd { self.src.below(4) } else { 0 };
            match (how, named) {
                (0, Some(n)) => self.out.push_str(n),
                (2, _) => {
                    let _ = write!(self.out, "&#{};", c as u32);
                }
                (3, _) => {
                    let _ = write!(self.out, "&#x00{:x};", c as u32);
                }
                _ => {
                    let _ = write!(self.out, "&#x{:X};", c as u32);
                }
            }
        }
    }
}

fn qname(prefix: &str, local: &str) -> String {
    if prefix.is_empty() {
        local.to_owned()
    } else {
        format!("{}:{}", prefix, local)
    }
}

// Strict parsing.

/// Parses a document strictly: anything which a conforming, namespace-aware processor would
/// reject is an error. Doesn't support document type declarations.
pub fn parse(text: &str) -> Result<Elem, String> {
    parse_tags(text).map(|(e, _)| e)
}

/// How a start tag is written.
#[derive(Clone, Debug)]
pub struct Tag {
    pub prefix: String,
    /// The namespace mappings it declares.
    pub decls: Vec<(String, String)>,
    /// The prefixes of the other attributes, in the order in which they stand.
    pub attrs: Vec<String>,
}

/// As `parse`, but also returns the start tags in document order.
pub fn parse_tags(text: &str) -> Result<(Elem, Vec<Tag>), String> {
    // Line ending normalization comes before everything else.
    let text = text.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = Parser {
        s: &text,
        pos: 0,
        tags: Vec::new(),
    };
    match p.document() {
        Ok(e) => Ok((e, p.tags)),
        Err(e) => Err(format!("{} at byte {} of {:?}", e, p.pos, clip(&text))),
    }
}

struct Parser<'a> {
    s: &'a str,
    pos: usize,
    tags: Vec<Tag>,
}

fn is_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

pub fn is_name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
        | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}'
        | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

pub fn is_name_char(c: char) -> bool {
    is_name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}')
}

impl<'a> Parser<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.pos..]
    }

    fn eat(&mut self, t: &str) -> bool {
        let y = self.rest().starts_with(t);
        if y {
            self.pos += t.len();
        }
        y
    }

    fn expect(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?}", t))
        }
    }

    fn ws(&mut self) -> bool {
        let n = self.rest().len()
            - self
                .rest()
                .trim_start_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
                .len();
        self.pos += n;
        n > 0
    }

    fn until(&mut self, t: &str) -> Result<&'a str, String> {
        let r = self.rest();
        let n = r.find(t).ok_or_else(|| format!("no {:?}", t))?;
        self.pos += n + t.len();
        let body = &r[..n];
        if let Some(c) = body.chars().find(|&c| !is_char(c)) {
            return Err(format!("illegal character {:?}", c));
        }
        Ok(body)
    }

    fn document(&mut self) -> Result<Elem, String> {
        if self.eat("<?xml") && self.rest().starts_with(|c: char| c.is_ascii_whitespace()) {
            let decl = self.until("?>")?;
            let mut rest = decl.trim();
            for (key, must, allowed) in [
                ("version", true, &["1.0"][..]),
                ("encoding", false, &["utf-8", "UTF-8"][..]),
                ("standalone", false, &["yes", "no"][..]),
            ] {
                match rest.strip_prefix(key) {
                    None if must => return Err(format!("declaration {:?} lacks {}", decl, key)),
                    None => {}
                    Some(r) => {
                        let r = r
                            .trim_start()
                            .strip_prefix('=')
                            .ok_or("bad declaration")?
                            .trim_start();
                        let q = r.chars().next().ok_or("bad declaration")?;
                        let end = r[1..].find(q).ok_or("bad declaration")?;
                        if !allowed.contains(&&r[1..1 + end]) {
                            return Err(format!("bad declaration {:?}", decl));
                        }
                        rest = r[end + 2..].trim_start();
                    }
                }
            }
            if !rest.is_empty() {
                return Err(format!("bad declaration {:?}", decl));
            }
        }
        self.misc()?;
        let root = self.element(&BTreeMap::new())?;
        self.misc()?;
        if !self.rest().is_empty() {
            return Err("content after the root".to_owned());
        }
        Ok(root)
    }

    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if !self.comment_or_pi()? {
                return Ok(());
            }
        }
    }

    fn comment_or_pi(&mut self) -> Result<bool, String> {
        if self.eat("<!--") {
            let body = self.until("-->")?;
            if body.contains("--") || body.ends_with('-') {
                return Err("-- in comment".to_owned());
            }
            return Ok(true);
        }
        if self.eat("<?") {
            let body = self.until("?>")?;
            let target = body
                .split(|c: char| c.is_ascii_whitespace())
                .next()
                .unwrap();
            if target.is_empty() || target.eq_ignore_ascii_case("xml") {
                return Err(format!("bad processing instruction target {:?}", target));
            }
            return Ok(true);
        }
        Ok(false)
    }

    fn ncname(&mut self) -> Result<&'a str, String> {
        let r = self.rest();
        let mut chars = r.char_indices();
        match chars.next() {
            Some((_, c)) if is_name_start(c) => {}
            c => return Err(format!("expected a name, got {:?}", c)),
        }
        let n = chars
            .find(|&(_, c)| !is_name_char(c))
            .map(|(i, _)| i)
            .unwrap_or(r.len());
        self.pos += n;
        Ok(&r[..n])
    }

    /// Returns the prefix (or an empty string) and the local name.
    fn qname(&mut self) -> Result<(&'a str, &'a str), String> {
        let a = self.ncname()?;
        if self.eat(":") {
            let b = self.ncname()?;
            return Ok((a, b));
        }
        Ok(("", a))
    }

    fn reference(&mut self) -> Result<char, String> {
        let body = self.until(";")?;
        match body {
            "lt" => return Ok('<'),
            "gt" => return Ok('>'),
            "amp" => return Ok('&'),
            "quot" => return Ok('"'),
            "apos" => return Ok('\''),
            _ => {}
        }
        let n = match body.strip_prefix("#x") {
            Some(h) if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) => {
                u32::from_str_radix(h, 16).ok()
            }
            Some(_) => None,
            None => match body.strip_prefix('#') {
                Some(d) if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => d.parse().ok(),
                _ => None,
            },
        };
        n.and_then(char::from_u32)
            .filter(|&c| is_char(c))
            .ok_or_else(|| format!("bad reference {:?}", body))
    }

    fn attr_value(&mut self) -> Result<String, String> {
        let quote = if self.eat("\"") {
            '"'
        } else if self.eat("'") {
            '\''
        } else {
            return Err("expected a quote".to_owned());
        };
        let mut out = String::new();
        loop {
            let c = self.rest().chars().next().ok_or("unterminated value")?;
            self.pos += c.len_utf8();
            match c {
                c if c == quote => return Ok(out),
                '<' => return Err("< in an attribute".to_owned()),
                '&' => out.push(self.reference()?),
                // Attribute value normalization.
                '\t' | '\n' | '\r' => out.push(' '),
                c if is_char(c) => out.push(c),
                c => return Err(format!("illegal character {:?}", c)),
            }
        }
    }

    fn resolve(
        scope: &BTreeMap<String, String>,
        prefix: &str,
        attr: bool,
    ) -> Result<String, String> {
        match prefix {
            "" if attr => Ok(String::new()),
            "" => Ok(scope.get("").cloned().unwrap_or_default()),
            "xml" => Ok(XML_NS.to_owned()),
            "xmlns" => Err("xmlns as a prefix".to_owned()),
            p => scope
                .get(p)
                .cloned()
                .ok_or_else(|| format!("undeclared prefix {:?}", p)),
        }
    }

    fn element(&mut self, outer: &BTreeMap<String, String>) -> Result<Elem, String> {
        self.expect("<")?;
        let q = self.qname()?;
        let mut scope = outer.clone();
        let mut raw: Vec<((&str, &str), String)> = Vec::new();
        let empty = loop {
            let spaced = self.ws();
            if self.eat("/>") {
                break true;
            }
            if self.eat(">") {
                break false;
            }
            if !spaced {
                return Err("expected white space or the end of the tag".to_owned());
            }
            let n = self.qname()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let v = self.attr_value()?;
            if raw.iter().any(|(m, _)| *m == n) {
                return Err(format!("duplicate attribute {:?}", n));
            }
            raw.push((n, v));
        };
        for ((p, l), v) in &raw {
            match (*p, *l) {
                ("", "xmlns") => {
                    if v == XML_NS || v == "http://www.w3.org/2000/xmlns/" {
                        return Err(format!("reserved namespace {:?}", v));
                    }
                    scope.insert(String::new(), v.clone());
                }
                ("xmlns", l) => {
                    if l == "xmlns"
                        || v.is_empty()
                        || (l == "xml") != (v == XML_NS)
                        || v == "http://www.w3.org/2000/xmlns/"
                    {
                        return Err(format!("can't map prefix {:?} to {:?}", l, v));
                    }
                    scope.insert(l.to_owned(), v.clone());
                }
                _ => {}
            }
        }
        let mut e = Elem::new(Name::new(&Self::resolve(&scope, q.0, false)?, q.1));
        let mut tag = Tag {
            prefix: q.0.to_owned(),
            decls: Vec::new(),
            attrs: Vec::new(),
        };
        for ((p, l), v) in &raw {
            match (*p, *l) {
                ("", "xmlns") => tag.decls.push((String::new(), v.clone())),
                ("xmlns", l) => tag.decls.push((l.to_owned(), v.clone())),
                _ => tag.attrs.push((*p).to_owned()),
            }
        }
        self.tags.push(tag);
        for ((p, l), v) in raw {
            if p == "xmlns" || (p.is_empty() && l == "xmlns") {
                continue;
            }
            let name = Name::new(&Self::resolve(&scope, p, true)?, l);
            if e.attr(&name).is_some() {
                return Err(format!("duplicate attribute {}", name));
            }
            e.attrs.push((name, v));
        }
        if empty {
            return Ok(e);
        }
        loop {
            if self.eat("</") {
                if self.qname()? != q {
                    return Err(format!("end tag doesn't match {:?}", q));
                }
                self.ws();
                self.expect(">")?;
                return Ok(e);
            }
            if self.eat("<![CDATA[") {
                let t = self.until("]]>")?;
                e.push_text(t);
                continue;
            }
            if self.comment_or_pi()? {
                continue;
            }
            if self.rest().starts_with('<') {
                let c = self.element(&scope)?;
                e.kids.push(Node::Elem(c));
                continue;
            }
            if self.eat("&") {
                let c = self.reference()?;
                e.push_text(c.encode_utf8(&mut [0; 4]));
                continue;
            }
            let r = self.rest();
            if r.is_empty() {
                return Err("unterminated element".to_owned());
            }
            let n = r.find(|c| matches!(c, '<' | '&')).unwrap_or(r.len());
            let t = &r[..n];
            if t.contains("]]>") {
                return Err("]]> in character data".to_owned());
            }
            if let Some(c) = t.chars().find(|&c| !is_char(c)) {
                return Err(format!("illegal character {:?}", c));
            }
            self.pos += n;
            e.push_text(t);
        }
    }
}
