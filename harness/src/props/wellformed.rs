//! Only complete, well-formed documents are accepted, however they arrive.

use crate::engine::{Case, Ctx, Fail, Prop, R};
use crate::io::Source;
use crate::model::*;
use crate::props::errors::{reader, Reader, MALFORMED};
use crate::props::roundtrip::describe;
use crate::props::visitor::{self, Act, Plan, Root, Swallow};
use crate::source::Src;
use crate::xmltree::{self, Elem, Placed, Style};
use crate::zoo;
use crate::{ensure, fail, scen};
use static_xml::de::Error;
use std::io::{ErrorKind, Read};

pub const PROPS: &[Prop] = &[Prop {
    id: "C07",
    level: "exploration",
    rule: "A valid document of a random derived type, or a random tree read by planned visitors which may skip content and swallow errors. Each is read with the source cut off at every byte (or a sample of them), failing at every byte, divided in random ways and interrupted, with junk after the root, with malformed content in random places (ignored ones included), and with random edits of its bytes. Oracle: constructed (which cuts and insertions must be rejected), the same document read at once, and for random edits xml-rs's own verdict on the whole document. Non-trivial: the document has at least three elements.",
    assumptions: &[
        "what xml-rs wrongly accepts (such as ]]> in text) is accepted",
        "a type which is itself recursive recurses as deeply as the document does",
    ],
    quick: 200_000,
    thorough: 2_000_000,
    run: c07,
    fixed: |_| FIXED.len() + ILL_FORMED.len(),
    run_fixed: |c, i, k| match FIXED.get(i) {
        Some(f) => f(c.thorough, k),
        None => ill_formed(ILL_FORMED[i - FIXED.len()], k),
    },
}];

const FIXED: &[fn(bool, &mut Case) -> R] = &[deep, long];

/// What came of reading: a value, or an error.
type Got = Result<Option<Val>, Error>;

fn read(how: &Reader, r: &mut dyn Read) -> Got {
    match how {
        Reader::Zoo(id) => (zoo::entry(*id).de)(r).map(Some),
        Reader::Plan(p) => {
            visitor::PLAN.with(|c| *c.borrow_mut() = Some(p.clone()));
            visitor::clear_log();
            static_xml::read::<_, Root>(r).map(|_| None)
        }
    }
}

fn read_bytes(how: &Reader, b: &[u8]) -> Got {
    read(how, &mut &b[..])
}

fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.to_string() == b.to_string(),
        _ => false,
    }
}

fn show(g: &Got) -> String {
    match g {
        Ok(Some(v)) => crate::props::roundtrip::clip(v),
        Ok(None) => "accepted".to_owned(),
        Err(e) => format!("error: {}", e),
    }
}

fn describe_reader(ctx: &Ctx, how: &Reader) -> String {
    match how {
        Reader::Zoo(id) => describe(&ctx.zoo, *id),
        Reader::Plan(p) => format!("{:?}", p),
    }
}

/// Whether this is a sequence of white space, comments and processing instructions.
fn misc(mut s: &str) -> bool {
    loop {
        s = s.trim_start_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
        if s.is_empty() {
            return true;
        }
        let end = if s.starts_with("<!--") {
            s[4..].find("-->").map(|i| i + 7)
        } else if s.starts_with("<?") {
            s.find("?>").map(|i| i + 2)
        } else {
            None
        };
        match end {
            Some(e) => s = &s[e..],
            None => return false,
        }
    }
}

struct Subject {
    tree: Elem,
    how: Reader,
    doc: xmltree::Doc,
}

fn subject(ctx: &Ctx, src: &mut Src, style: Style) -> Option<Subject> {
    let zoo = &ctx.zoo;
    let (tree, how) = if src.pct(50) {
        let id = scen::pick_type(src, zoo, &|_| true);
        let n = src.below(3);
        let tree = scen::document(src, zoo, id, n)?.0;
        let mut facts = Interp::default();
        if zoo.interp(id, &tree, &mut facts).is_err() || facts.unspecified {
            return None;
        }
        (tree, Reader::Zoo(id))
    } else {
        let mut left = 2 + src.below(16);
        let tree = visitor::gen_tree(src, 1, &mut left);
        let act = reader(src, &tree);
        (tree, Reader::Plan(act))
    };
    let doc = xmltree::render(src, &tree, style);
    Some(Subject { tree, how, doc })
}

fn c07(ctx: &Ctx, src: &mut Src, case: &mut Case) -> R {
    let style = match src.below(3) {
        0 => Style::PLAIN,
        1 => Style {
            outside: true,
            ..Style::PLAIN
        },
        _ => Style::VARIED,
    };
    let what = src.weighted(&[20, 20, 15, 15, 20, 20]);
    let s = match subject(ctx, src, style) {
        Some(s) => s,
        None => {
            case.label("rejected anyway");
            return Ok(());
        }
    };
    case.nontrivial = s.tree.size() >= 3;
    case.key((what, &s.doc.text));
    case.sample(|| s.doc.text.clone());
    let r = match what {
        0 => cut(src, case, &s),
        1 => faulty(src, case, &s),
        2 => pieces(src, case, &s),
        3 => after(src, case, &s),
        4 => malformed(src, case, &s),
        _ => edited(src, case, &s),
    };
    r.map_err(|f| Fail {
        msg: format!(
            "{}\n{}\noriginal document: {}",
            f.msg,
            describe_reader(ctx, &s.how),
            xmltree::clip(&s.doc.text)
        ),
    })
}

/// Every offset, or for a long document a sample of them with those near its end.
fn offsets(src: &mut Src, len: usize) -> Vec<usize> {
    if len <= 160 {
        return (0..=len).collect();
    }
    let mut v: Vec<usize> = (0..60).map(|_| src.below(len + 1)).collect();
    v.extend(len - 20..=len);
    v
}

fn cut(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    case.label("cut off");
    let text = &s.doc.text;
    let end = s.doc.root.end;
    for k in offsets(src, text.len()) {
        let b = &text.as_bytes()[..k];
        let got = read_bytes(&s.how, b);
        case.also(case.nontrivial, (k, b));
        let complete = k >= end && std::str::from_utf8(&b[end..]).map_or(false, misc);
        ensure!(
            got.is_ok() == complete,
            "cut off after {} bytes, which is {}, the result is {}",
            k,
            if complete { "complete" } else { "incomplete" },
            show(&got)
        );
    }
    Ok(())
}

fn faulty(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    case.label("source fails");
    let b = s.doc.text.as_bytes();
    let kind = *src.pick(&[
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::WouldBlock,
        ErrorKind::InvalidData,
        ErrorKind::ConnectionReset,
    ]);
    let once = src.pct(40);
    for k in offsets(src, b.len()) {
        let mut source = Source::new(b);
        source.fail = Some((k, kind));
        source.once = once;
        let got = read(&s.how, &mut source);
        case.also(case.nontrivial, (k, b, once));
        ensure!(
            source.failed > 0,
            "the source was never asked for more than {} of {} bytes",
            k,
            b.len()
        );
        ensure!(
            got.is_err(),
            "the source failed after {} of {} bytes ({:?}, {}), but the result is {}",
            k,
            b.len(),
            kind,
            if once { "once" } else { "for good" },
            show(&got)
        );
    }
    Ok(())
}

fn split(src: &mut Src, len: usize) -> Vec<usize> {
    let max = *src.pick(&[1, 2, 3, 7, 20]);
    let mut v = Vec::new();
    let mut n = 0;
    while n < len && v.len() < 3000 {
        let k = 1 + src.below(max);
        v.push(k);
        n += k;
    }
    v
}

fn pieces(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    case.label("in pieces");
    let mut b = s.doc.text.clone().into_bytes();
    if src.pct(30) {
        let k = src.below(b.len());
        b.truncate(k);
    }
    let want = read_bytes(&s.how, &b);
    for _ in 0..3 {
        let mut source = Source::new(&b);
        source.sizes = split(src, b.len());
        if src.pct(40) {
            source.interrupt = 2 + src.below(5);
        }
        let got = read(&s.how, &mut source);
        ensure!(
            same(&got, &want),
            "read from {} in pieces of {:?}, interrupted every {}, the result is {}, rather than {}",
            String::from_utf8_lossy(&b),
            &source.sizes[..source.sizes.len().min(100)],
            source.interrupt,
            show(&got),
            show(&want)
        );
        case.also(case.nontrivial, (&source.sizes, &b));
    }
    Ok(())
}

const FINE: &[&str] = &[
    " ",
    "\n\n",
    "<!-- c -->",
    "<?pi?>",
    "<?pi body?>",
    "\t<!-- <a> -->",
    "\r\n",
];
const JUNK: &[&str] = &[
    "x",
    "<a/>",
    "<a></a>",
    "<root>",
    "</root>",
    "</a>",
    "<![CDATA[x]]>",
    "<![CDATA[]]>",
    "&nope;",
    "<",
    "<!",
    "<!-",
    "<!--",
    "<!-- c",
    "<?",
    "<?pi",
    "é",
    "]]>x",
    "&",
    "<a b='",
    "1",
    "<!x>",
];

fn after(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    let plain = read_bytes(&s.how, s.doc.text.as_bytes());
    ensure!(
        plain.is_ok(),
        "a valid document is refused: {}",
        show(&plain)
    );
    let mut t = s.doc.text.clone();
    for _ in 0..src.small(4) {
        t.push_str(src.pick(FINE));
    }
    if src.pct(30) {
        case.label("harmless after the root");
        let got = read_bytes(&s.how, t.as_bytes());
        ensure!(
            same(&got, &plain),
            "{}\nshould be as the original: {}, but is {}",
            t,
            show(&plain),
            show(&got)
        );
        return Ok(());
    }
    case.label("junk after the root");
    let junk = *src.pick(JUNK);
    t.push_str(junk);
    // Nothing which could complete it.
    for _ in 0..src.small(3) {
        t.push_str(src.pick(&FINE[..2]));
    }
    case.key(&t);
    let got = read_bytes(&s.how, t.as_bytes());
    ensure!(
        got.is_err(),
        "{:?} after the root was accepted: {}",
        junk,
        t
    );
    Ok(())
}

const MORE: &[&str] = &[
    "<a>",
    "<a><b></a></b>",
    "<a",
    "<a b",
    "<a b=",
    "<a b='",
    "<a/",
    "<!--",
    "<![CDATA[",
    "<?pi",
    "<a></ b>",
    "<a></a b>",
    "<!-- -- -->",
    "<a b='1'c='2'/ >",
    "<a>&nbsp;</a>",
    "<>",
    "</>",
    "<a:b:c/>",
    "<a xmlns:b='u' xmlns:c='u' b:d='1' b:d='2'/>",
    "<-/>",
    "<a b=1/>",
    "<a 'b'/>",
    "<a undeclared:c='1'/>",
    "<a xmlns:xmlns='u'/>",
    "<a b='&lt'/>",
    "<a b='&lt;' b='&gt;'/>",
];

fn malformed(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    case.label("malformed");
    fn spots(p: &Placed, out: &mut Vec<usize>) {
        if p.open < p.end {
            out.push(p.open);
        }
        for k in &p.kids {
            out.push(k.end);
            spots(k, out);
        }
    }
    let mut all = Vec::new();
    spots(&s.doc.root, &mut all);
    if all.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let at = *src.pick(&all);
        let piece = if src.pct(50) {
            *src.pick(MALFORMED)
        } else {
            *src.pick(MORE)
        };
        let mut b = s.doc.text.clone().into_bytes();
        if src.pct(10) {
            // Not UTF-8.
            let bad: &[u8] = src.pick(&[
                &b"\xff"[..],
                b"\xc3",
                b"\xe2\x82",
                b"\xf0\x9f\x98",
                b"\x80",
                b"\xed\xa0\x80",
                b"\xc0\xaf",
            ]);
            b.splice(at..at, bad.iter().copied());
        } else {
            // It mustn't be completed by what follows.
            let rest = &s.doc.text[at..];
            let end = match piece {
                "<!--" => "-->",
                "<![CDATA[" => "]]>",
                "<?pi" => "?>",
                "<a b='" => "'",
                _ => "",
            };
            if !end.is_empty() && rest.contains(end) {
                continue;
            }
            b.splice(at..at, piece.bytes());
        }
        let got = read_bytes(&s.how, &b);
        case.also(case.nontrivial, &b);
        ensure!(
            got.is_err(),
            "malformed, but accepted: {}",
            String::from_utf8_lossy(&b)
        );
    }
    Ok(())
}

/// xml-rs's verdict.
fn verdict(b: &[u8]) -> bool {
    use xml::reader::XmlEvent;
    let mut depth = 0;
    let mut roots = 0;
    for e in xml::reader::EventReader::new(b) {
        match e {
            Err(_) => return false,
            Ok(XmlEvent::StartElement { .. }) => {
                if depth == 0 {
                    roots += 1;
                }
                depth += 1;
            }
            Ok(XmlEvent::EndElement { .. }) => depth -= 1,
            Ok(XmlEvent::Characters(_)) | Ok(XmlEvent::CData(_)) | Ok(XmlEvent::Whitespace(_))
                if depth == 0 =>
            {
                return false
            }
            Ok(_) => {}
        }
    }
    roots == 1
}

fn edited(src: &mut Src, case: &mut Case, s: &Subject) -> R {
    case.label("edited");
    let mut b = s.doc.text.clone().into_bytes();
    const BITS: &[&[u8]] = &[
        b"<",
        b">",
        b"/",
        b"&",
        b"\"",
        b"'",
        b" ",
        b"=",
        b"!",
        b"?",
        b"-",
        b"[",
        b"]",
        b";",
        b"#",
        b":",
        b"a",
        b"1",
        b"\0",
        b"\xff",
        b"\xc3",
        b"<a>",
        b"</a>",
        b"<a/>",
        b"<!--",
        b"-->",
        b"<![CDATA[",
        b"]]>",
        b"<?a",
        b"?>",
        b"&#",
        b"&amp;",
        b"xmlns",
        b"xmlns:a='u'",
        b"a:",
        b"<?xml version='1.0'?>",
        b"<!DOCTYPE a>",
        b"<!DOCTYPE a [<!ENTITY b 'c'>]>",
        b"&b;",
        b"\r",
        b"\n",
    ];
    for _ in 0..1 + src.small(5) {
        let i = src.below(b.len() + 1);
        match src.below(5) {
            0 | 1 => {
                let bit = *src.pick(BITS);
                b.splice(i..i, bit.iter().copied());
            }
            2 if i < b.len() => {
                let n = 1 + src.small(8);
                let n = n.min(b.len() - i);
                b.drain(i..i + n);
            }
            3 if i < b.len() => b[i] = src.below(256) as u8,
            _ if i < b.len() => {
                let n = (1 + src.below(20)).min(b.len() - i);
                let piece = b[i..i + n].to_vec();
                let j = src.below(b.len() + 1);
                b.splice(j..j, piece);
            }
            _ => {}
        }
    }
    case.key(&b);
    let want = verdict(&b);
    case.label(if want {
        "still well-formed"
    } else {
        "no longer well-formed"
    });
    // Whatever a type makes of it, it mustn't accept what isn't well-formed.
    let got = read_bytes(&s.how, &b);
    ensure!(
        want || got.is_err(),
        "not well-formed, but accepted: {}",
        String::from_utf8_lossy(&b)
    );
    // Skipping and visiting everything are alike.
    let visit_all = Act::Visit(Plan {
        acts: vec![],
        abort: None,
        id: 0,
    });
    for act in [Act::Drop, Act::Pass, Act::Null, visit_all] {
        let how = Reader::Plan((act, Swallow::Yes));
        let got = read_bytes(&how, &b);
        ensure!(
            got.is_ok() == want,
            "this is {}well-formed, but ignoring it results in {}: {}",
            if want { "" } else { "not " },
            show(&got),
            String::from_utf8_lossy(&b)
        );
    }
    Ok(())
}

/// Documents which aren't well-formed, one reason each.
const ILL_FORMED: &[&str] = &[
    "<a/>&lt;",
    "<a/>&#120;",
    "&lt;<a/>",
    "<a>]]></a>",
    "<!--c--><?xml version='1.0'?><a/>",
    " <?xml version='1.0'?><a/>",
    "<a>\u{1}</a>",
    "<a>&#1;</a>",
    "<a>\u{fffe}</a>",
    "<a b='1'c='2'/>",
    "<a xmlns:b='u' xmlns:c='u' b:d='1' c:d='2'/>",
    "<a xmlns='u' xmlns='v'/>",
    "<a xmlns:b='u' xmlns:b='v'/>",
    "<a xmlns='http://www.w3.org/XML/1998/namespace'/>",
    "<!DOCTYPE a><!DOCTYPE a><a/>",
    "<a\u{b7}/>",
    "<a\u{d7}/>",
    "<a><? x?></a>",
    "<a/>&nope;",
    "<a>&#0;</a>",
    "<a><!-- -- --></a>",
    "<a><!-----></a>",
    "<a><?xml version='1.0'?></a>",
    "<a><?XML x?></a>",
    "<a/><?xml version='1.0'?>",
    "<a b='<'/>",
    "<a b='&'/>",
    "<a b='&lt'/>",
    "<a xmlns:b=''/>",
    "<a xmlns:xml='u'/>",
    "<a xmlns:xmlns='u'/>",
    "<xmlns:a/>",
    "<a undeclared:c='1'/>",
    "<b:a/>",
    "<a:b:c xmlns:a='u'/>",
    "<:a/>",
    "<a:/>",
    "<a :b='1'/>",
    "<a>< /a>",
    "<a></ a>",
    "<a/ >",
    "<?xml version='1.0' standalone='maybe'?><a/>",
    "<?xml version='2.0'?><a/>",
    "<?xml encoding='utf-8'?><a/>",
    "<?xml version='1.0' bad='x'?><a/>",
    "<a/><!DOCTYPE a>",
    "<a><!DOCTYPE a></a>",
    "<a>&amp</a>",
    "<a>&</a>",
    "<a>& </a>",
    "<a>&#x;</a>",
    "<a>&#xD800;</a>",
    "<a>&#x110000;</a>",
    "<a>&nbsp;</a>",
    "<a>><</a>",
    "<1/>",
    "<-a/>",
    "<.a/>",
    "x<a/>",
    "<![CDATA[]]><a/>",
    "<a/><![CDATA[]]>",
    "<a><![cdata[x]]></a>",
    "<a><?1 ?></a>",
    "<a><??></a>",
    "<a b='1' b='1'/>",
    "",
    "  ",
    "<!--c-->",
    "<?p?>",
    "<?xml version='1.0'?>",
    "<a/><a/>",
    "<a></b>",
    "<a><b></a></b>",
    "</a>",
    "<a",
    "<a>",
    "<a/>x",
    "<a b=1/>",
    "<a b/>",
];

fn ill_formed(d: &str, case: &mut Case) -> R {
    case.key(d);
    case.label("ill-formed");
    case.nontrivial = true;
    case.sample(|| d.to_owned());
    for act in [
        Act::Drop,
        Act::Null,
        Act::Visit(Plan {
            acts: vec![],
            abort: None,
            id: 0,
        }),
    ] {
        let how = Reader::Plan((act, Swallow::Yes));
        ensure!(
            read_bytes(&how, d.as_bytes()).is_err(),
            "ill-formed, but accepted: {:?}",
            d
        );
    }
    Ok(())
}

/// Nesting which exceeds any stack isn't a problem unless the type is recursive.
fn deep(thorough: bool, case: &mut Case) -> R {
    let n = if thorough { 8_000 } else { 4_000 };
    let open = "<a>".repeat(n);
    let close = "</a>".repeat(n);
    let docs = [
        (format!("{}{}", open, close), true),
        (format!("{}x{}", open, close), true),
        (open.clone(), false),
        (format!("{}{}</a>", open, close), false),
        (format!("<r>{}</r>", open), false),
        (format!("<r>{}</b>{}</r>", open, close), false),
    ];
    for (i, (d, fine)) in docs.into_iter().enumerate() {
        for act in [Act::Drop, Act::Null, Act::ReadString] {
            let how = Reader::Plan((act.clone(), Swallow::Yes));
            let d = d.clone();
            // A small stack, to notice recursion.
            let got = std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn(move || read_bytes(&how, d.as_bytes()).is_ok())
                .unwrap()
                .join();
            match got {
                Ok(g) => ensure!(
                    g == fine,
                    "document {} of {} nested elements is {} by {:?}",
                    i,
                    n,
                    if g { "accepted" } else { "refused" },
                    act
                ),
                Err(_) => fail!("panicked on document {} of {} nested elements", i, n),
            }
            case.also(true, (i, format!("{:?}", act)));
        }
    }
    case.nontrivial = true;
    case.label("deep");
    Ok(())
}

/// Documents with very long names, values, text, and very many attributes and elements.
fn long(thorough: bool, case: &mut Case) -> R {
    let n = if thorough { 1_000_000 } else { 100_000 };
    let x = "x".repeat(n);
    let attrs: String = (0..2_000).map(|i| format!(" a{}='{}'", i, i)).collect();
    let docs = [
        (format!("<{}/>", x), true),
        (format!("<a b='{}'/>", x), true),
        (format!("<a>{}</a>", x), true),
        (format!("<a>{}</a>", "&lt;".repeat(n / 10)), true),
        (format!("<a><!--{}--></a>", x), true),
        (format!("<a><?p {}?></a>", x), true),
        (format!("<a><![CDATA[{}]]></a>", x), true),
        (format!("<a{}/>", attrs), true),
        (format!("<a{}{}/>", attrs, attrs), false),
        (format!("<a>{}</a>", "<b/>".repeat(n / 10)), true),
        (format!("<a>{}</a>", "<b/>t".repeat(n / 10)), true),
        (format!("<a>{}</a>", "<b>".repeat(1000)), false),
        (format!("<a/>{}", "<!---->".repeat(n / 10)), true),
        (format!("<a/>{}x", "<!---->".repeat(n / 10)), false),
        (format!("{}<a/>", "<?p?>".repeat(n / 10)), true),
        (x.clone(), false),
        (format!("<{}", x), false),
        (format!("<a>{}", x), false),
    ];
    for (i, (d, fine)) in docs.iter().enumerate() {
        for act in [
            Act::Drop,
            Act::ReadString,
            Act::Visit(Plan {
                acts: vec![],
                abort: None,
                id: 0,
            }),
        ] {
            let how = Reader::Plan((act.clone(), Swallow::Yes));
            let got = read_bytes(&how, d.as_bytes());
            ensure!(
                got.is_ok() == *fine,
                "long document {} ({}) by {:?}: {}",
                i,
                xmltree::clip(d),
                act,
                xmltree::clip(&show(&got))
            );
            case.also(true, (i, format!("{:?}", act)));
        }
    }
    case.nontrivial = true;
    case.label("long");
    Ok(())
}
