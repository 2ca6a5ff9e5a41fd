//! Derived types made of the hand-written ones in `protocol`.
//!
//! That these don't compile is for ../../../check to report as a violation, so there's nothing else
//! here.

#![allow(dead_code)]

use super::protocol::{A, P, V, X};
use static_xml_derive::{Deserialize as De, Serialize as Se};

#[derive(De, Se, Debug)]
#[static_xml(
    namespace = "p: urn:p",
    namespace = "q: urn:q",
    default_namespace = "urn:d"
)]
pub struct Outer {
    #[static_xml(attribute)]
    a0: A<0>,
    #[static_xml(flatten)]
    f0: Flat,
    #[static_xml(attribute, prefix = "p", rename = "a")]
    a1: A<1>,
    #[static_xml(attribute, default, prefix = "q", rename = "a")]
    a2: A<2>,
    #[static_xml(attribute)]
    x0: X<0>,
    #[static_xml(attribute)]
    x1: Option<X<1>>,
    e0: P<0>,
    #[static_xml(prefix = "p", rename = "e")]
    e1: P<1>,
    #[static_xml(default, prefix = "q", rename = "e")]
    e2: P<2>,
    v0: V<0>,
    #[static_xml(prefix = "p", rename = "v")]
    v1: Option<V<1>>,
    #[static_xml(prefix = "q", rename = "v")]
    v2: Vec<V<2>>,
    #[static_xml(default)]
    v3: V<3>,
    x2: Option<X<2>>,
    x3: Vec<X<3>>,
    #[static_xml(text)]
    text: X<4>,
    inner: Vec<Inner>,
    #[static_xml(prefix = "p", rename = "outer")]
    outer: Vec<Outer>,
    #[static_xml(flatten)]
    choice: Choice,
    #[static_xml(flatten)]
    other: Other,
}

#[derive(De, Se, Debug)]
#[static_xml(namespace = "z: urn:p")]
pub struct Flat {
    #[static_xml(attribute)]
    a3: A<3>,
    e3: P<3>,
    #[static_xml(prefix = "z", rename = "e3")]
    e4: P<4>,
    v4: Option<V<4>>,
    /// Shadowed by the outer type's.
    #[static_xml(prefix = "z", rename = "v")]
    v5: Vec<V<5>>,
    #[static_xml(flatten)]
    deeper: Deeper,
}

#[derive(De, Se, Debug)]
pub struct Deeper {
    #[static_xml(attribute, default)]
    a4: A<4>,
    e5: P<5>,
    #[static_xml(text)]
    text: X<5>,
}

#[derive(De, Se, Debug)]
#[static_xml(namespace = "i: urn:p")]
pub struct Inner {
    #[static_xml(attribute, prefix = "i", rename = "a")]
    a5: A<5>,
    e6: P<6>,
    #[static_xml(prefix = "i", rename = "v")]
    v6: Vec<V<6>>,
    #[static_xml(flatten)]
    choice: Choice,
    #[static_xml(text)]
    text: X<6>,
}

#[derive(De, Se, Debug)]
#[static_xml(namespace = "c: urn:q")]
pub enum Choice {
    First(P<7>),
    #[static_xml(prefix = "c", rename = "second")]
    Second(Vec<V<7>>),
    Third(Option<V<8>>),
    Fourth,
    #[static_xml(prefix = "c", rename = "fifth")]
    Fifth(X<7>),
    Sixth(Inside),
}

#[derive(De, Se, Debug)]
pub struct Inside {
    e8: P<8>,
    v9: Vec<V<9>>,
}

#[derive(De, Se, Debug)]
pub enum Other {
    Otherwise(P<9>),
    Alternatively(V<10>),
}
