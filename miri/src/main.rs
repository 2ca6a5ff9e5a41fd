//! A small version of the checks of C11 and C16 to be run under Miri, which is too slow for the
//! zoo of types that the harness proper uses.
//!
//! `vm PROPERTY SEED CASES` exits with 1 and says why if an oracle is violated; memory errors and
//! leaks are for Miri to report.

use static_xml::de::{normalize, ParseText, WhiteSpace};
use static_xml_derive::{Deserialize, ParseText};
use std::cell::Cell;
use std::io::Read;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PANIC_IN: Cell<i64> = const { Cell::new(-1) };
}

/// A text type which counts its instances and owns memory.
struct Tx(#[allow(dead_code)] Box<str>);

struct Planned;

fn new(s: &str) -> Tx {
    PANIC_IN.with(|p| {
        let n = p.get();
        p.set(n - 1);
        if n == 0 {
            std::panic::panic_any(Planned);
        }
    });
    LIVE.with(|l| l.set(l.get() + 1));
    Tx(s.into())
}

impl Drop for Tx {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

impl Default for Tx {
    fn default() -> Self {
        new("default")
    }
}

impl ParseText for Tx {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        if text.contains('!') {
            return Err("bad".into());
        }
        Ok(new(&text))
    }
}

#[derive(ParseText)]
#[static_xml(mode = "union")]
#[allow(dead_code)]
enum Uni {
    N(u8),
    T(Tx),
}

#[derive(Deserialize)]
#[static_xml(namespace = "n: urn:n", default_namespace = "urn:d")]
#[allow(dead_code)]
struct Plain {
    #[static_xml(attribute)]
    a: Tx,
    #[static_xml(attribute, prefix = "n")]
    b: Option<Tx>,
    #[static_xml(attribute, default)]
    c: Tx,
    d: Tx,
    e: Option<Tx>,
    #[static_xml(prefix = "")]
    f: Vec<Tx>,
    #[static_xml(default, prefix = "n")]
    g: Tx,
    small: u8,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Texty {
    #[static_xml(text)]
    t: Tx,
    #[static_xml(attribute)]
    a: Option<Tx>,
    e: Vec<Uni>,
}

#[derive(Deserialize)]
#[allow(dead_code)]
enum Choice {
    #[static_xml(rename = "d")]
    D(Tx),
    #[static_xml(rename = "e")]
    E(Vec<Texty>),
    #[static_xml(rename = "h")]
    H,
    #[static_xml(rename = "i", skip)]
    I,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Inner {
    #[static_xml(attribute)]
    c: Option<Tx>,
    #[static_xml(flatten)]
    choice: Choice,
    k: Option<Tx>,
    #[static_xml(text)]
    text: Tx,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Outer {
    #[static_xml(attribute)]
    a: Option<Tx>,
    #[static_xml(flatten)]
    first: Inner,
    f: Vec<Choice>,
    #[static_xml(flatten)]
    second: Rest,
    sub: Option<Box<str_box::Sub>>,
}

#[derive(Deserialize)]
#[allow(dead_code)]
struct Rest {
    #[static_xml(attribute)]
    b: Option<Tx>,
    e: Vec<Tx>,
    k: Vec<Tx>,
    #[static_xml(default)]
    g: Tx,
}

mod str_box {
    use super::Outer;
    use static_xml::de::{Deserialize, ElementReader, VisitorError};

    /// Recursion.
    #[allow(dead_code)]
    pub struct Sub(Outer);

    impl Deserialize for Box<Sub> {
        fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
            Ok(Box::new(Sub(Outer::deserialize(element)?)))
        }
    }
}

fn attrs(r: &mut Rng) -> String {
    let mut s = String::new();
    for a in ["a", "n:b", "b", "c"] {
        if r.below(3) > 0 {
            s.push_str(&format!(" {}='{}'", a, r.pick(&["x", "", "12", "y"])));
        }
    }
    if r.below(12) == 0 {
        s.push_str(" c2='!' a3=''");
    }
    s
}

fn element(r: &mut Rng, depth: usize, out: &mut String) {
    let mut names = [
        "d", "e", "f:f", "f", "n:g", "g", "k", "h", "i", "small", "other",
    ];
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    let n = r.below(names.len() + 1);
    for name in &names[..n] {
        for _ in 0..[1, 1, 1, 1, 2, 3][r.below(6)] {
            out.push_str(&format!("<{}", name));
            if r.below(4) == 0 {
                out.push_str(&attrs(r));
            }
            out.push('>');
            if depth > 0 && r.below(5) == 0 {
                element(r, depth - 1, out);
            } else if *name == "f" || *name == "f:f" {
                out.push_str(r.pick(&["<d>q</d>", "<e/><e>w</e>", "<h/>", "", "<i/>", "z"]));
            } else if r.below(15) == 0 {
                out.push('!');
            } else {
                out.push_str(r.pick(&["1", "t", "", " ", "77"]));
            }
            out.push_str(&format!("</{}>", name));
        }
    }
    if depth > 0 && r.below(3) == 0 {
        out.push_str("<sub>");
        element(r, depth - 1, out);
        out.push_str("</sub>");
    }
    if r.below(3) == 0 {
        out.push_str("tail");
    }
}

struct Source<'a> {
    bytes: &'a [u8],
    left: usize,
    how: usize,
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            match self.how {
                0 => return Ok(0),
                1 => return Err(std::io::Error::new(std::io::ErrorKind::Other, "planned")),
                _ => std::panic::panic_any(Planned),
            }
        }
        let n = buf.len().min(self.left).min(self.bytes.len());
        buf[..n].copy_from_slice(&self.bytes[..n]);
        self.bytes = &self.bytes[n..];
        self.left -= n;
        Ok(n)
    }
}

fn fail(msg: String) -> ! {
    println!("{}", msg);
    std::process::exit(1)
}

fn c16(r: &mut Rng) -> &'static str {
    let mut text = format!("<r xmlns:n='urn:n' xmlns:f='urn:d'{}>", attrs(r));
    element(r, 2, &mut text);
    text.push_str("</r>");
    let source = Source {
        bytes: text.as_bytes(),
        left: if r.below(2) == 0 {
            usize::MAX
        } else {
            r.below(text.len())
        },
        how: r.below(3),
    };
    let panic_in = if r.below(3) == 0 {
        r.below(8) as i64
    } else {
        -1
    };
    let ty = r.below(4);
    LIVE.with(|l| l.set(0));
    PANIC_IN.with(|p| p.set(panic_in));
    let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match ty {
        0 => static_xml::read::<_, Plain>(source).is_ok(),
        1 => static_xml::read::<_, Texty>(source).is_ok(),
        2 => static_xml::read::<_, Choice>(source).is_ok(),
        _ => static_xml::read::<_, Outer>(source).is_ok(),
    }));
    PANIC_IN.with(|p| p.set(-1));
    let what = match &end {
        Ok(true) => "success",
        Ok(false) => "error",
        Err(p) if p.is::<Planned>() => "panic",
        Err(_) => fail(format!("type {} panicked on {}", ty, text)),
    };
    let live = LIVE.with(|l| l.get());
    if live != 0 {
        fail(format!(
            "{} values remain after {} of type {} on {}",
            live, what, ty, text
        ));
    }
    what
}

fn c11(r: &mut Rng) -> &'static str {
    let n = r.below(14);
    let s: String = (0..n)
        .map(|_| *r.pick(&[' ', ' ', '\t', '\n', '\r', 'a', 'b', 'é', '😀', '\u{a0}']))
        .collect();
    let replaced: String = s
        .chars()
        .map(|c| if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c })
        .collect();
    let collapsed = replaced
        .split(' ')
        .filter(|w| !w.is_empty())
        .collect::<Vec<_>>()
        .join(" ");
    for (mode, want) in [
        (WhiteSpace::Preserve, &s),
        (WhiteSpace::Replace, &replaced),
        (WhiteSpace::Collapse, &collapsed),
    ] {
        let got = normalize(s.clone(), mode);
        if got != *want {
            fail(format!("{:?} under {:?} became {:?}", s, mode, got));
        }
    }
    "string"
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[2].parse().unwrap();
    let cases: u64 = args[3].parse().unwrap();
    let mut ends = std::collections::BTreeMap::new();
    for i in 0..cases {
        println!("case {} of seed {}", i, seed);
        let mut r = Rng(seed.wrapping_mul(1 << 32).wrapping_add(i * 7919));
        let end = if args[1] == "C11" {
            c11(&mut r)
        } else {
            c16(&mut r)
        };
        *ends.entry(end).or_insert(0) += 1;
    }
    println!("done: {:?}", ends);
}
