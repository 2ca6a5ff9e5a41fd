//! The derived types themselves, as written out by `build.rs`.

#![allow(non_camel_case_types, non_snake_case)]

use crate::model::*;
use crate::schema::Name;
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
use std::io::{Read, Write};

/// Conversions between the derived types and the model's values.
pub trait Model: Sized {
    fn build(v: &Val) -> Self;
    fn view(&self) -> Val;
}

pub trait TModel: Sized {
    fn tbuild(v: &TVal) -> Self;
    fn tview(&self) -> TVal;
}

macro_rules! tmodel {
    ($t:ty) => {
        impl Model for $t {
            fn build(v: &Val) -> Self {
                match v {
                    Val::Text(t) => TModel::tbuild(t),
                    _ => unreachable!(),
                }
            }
            fn view(&self) -> Val {
                Val::Text(self.tview())
            }
        }
    };
}

macro_rules! prim {
    ($t:ty, $p:pat => $b:expr, $s:ident => $v:expr) => {
        impl TModel for $t {
            fn tbuild(v: &TVal) -> Self {
                match v {
                    $p => $b,
                    _ => unreachable!(),
                }
            }
            fn tview(&self) -> TVal {
                let $s = self;
                $v
            }
        }
        tmodel!($t);
    };
}

prim!(String, TVal::Str(s) => s.clone(), s => TVal::Str(s.clone()));
prim!(bool, TVal::Bool(b) => *b, s => TVal::Bool(*s));
prim!(i8, TVal::Int(i) => *i as i8, s => TVal::Int(*s as i128));
prim!(i16, TVal::Int(i) => *i as i16, s => TVal::Int(*s as i128));
prim!(i32, TVal::Int(i) => *i as i32, s => TVal::Int(*s as i128));
prim!(i64, TVal::Int(i) => *i as i64, s => TVal::Int(*s as i128));
prim!(i128, TVal::Int(i) => *i, s => TVal::Int(*s));
prim!(u8, TVal::Uint(i) => *i as u8, s => TVal::Uint(*s as u128));
prim!(u16, TVal::Uint(i) => *i as u16, s => TVal::Uint(*s as u128));
prim!(u32, TVal::Uint(i) => *i as u32, s => TVal::Uint(*s as u128));
prim!(u64, TVal::Uint(i) => *i as u64, s => TVal::Uint(*s as u128));
prim!(u128, TVal::Uint(i) => *i, s => TVal::Uint(*s));
prim!(f32, TVal::F32(b) => f32::from_bits(*b), s => TVal::F32(f32_bits(*s)));
prim!(f64, TVal::F64(b) => f64::from_bits(*b), s => TVal::F64(f64_bits(*s)));
prim!(
    crate::canary::Canary,
    TVal::Canary(s) => crate::canary::Canary::new(s),
    s => TVal::Canary(s.text().to_owned())
);

impl<T: Model> Model for Option<T> {
    fn build(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|v| T::build(v)),
            _ => unreachable!(),
        }
    }
    fn view(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.view())))
    }
}

impl<T: Model> Model for Vec<T> {
    fn build(v: &Val) -> Self {
        match v {
            Val::Many(o) => o.iter().map(T::build).collect(),
            _ => unreachable!(),
        }
    }
    fn view(&self) -> Val {
        Val::Many(self.iter().map(T::view).collect())
    }
}

fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Struct(v) => v,
        _ => unreachable!(),
    }
}

/// The harness's own `FromStr` error.
#[derive(Debug)]
pub struct StdError(pub String);

impl std::fmt::Display for StdError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "std doesn't like {:?}", self.0)
    }
}

impl std::error::Error for StdError {}

macro_rules! std_text {
    ($t:ident) => {
        impl std::str::FromStr for $t {
            type Err = StdError;
            fn from_str(s: &str) -> Result<Self, StdError> {
                if std_rejects(s) {
                    return Err(StdError(s.to_owned()));
                }
                Ok($t(s.to_owned()))
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.0)
            }
        }
        impl Default for $t {
            fn default() -> Self {
                $t("std-default".to_owned())
            }
        }
        prim!($t, TVal::Std(s) => $t(s.clone()), s => TVal::Std(s.0.clone()));
    };
}

/// How to serialize.
#[derive(Clone, Copy, Debug, Default)]
pub struct SerOpts<'a> {
    pub indent: bool,
    pub no_decl: bool,
    pub name: Option<&'a Name>,
}

fn name_ref(n: &Name) -> ExpandedNameRef<'_> {
    ExpandedNameRef {
        namespace: &n.ns,
        local_name: &n.local,
    }
}

type Ser = fn(&Val, SerOpts<'_>, &mut dyn Write) -> Result<(), String>;
type De = fn(&mut dyn Read) -> Result<Val, static_xml::de::Error>;

/// A type of the zoo, type-erased.
#[derive(Clone, Copy)]
pub struct Entry {
    /// Text types need a name.
    pub ser: Ser,
    pub de: De,
    pub de_str: fn(&str) -> Result<Val, static_xml::de::Error>,
    /// As `de`, but drops the value rather than looking at it.
    pub de_drop: fn(&mut dyn Read) -> Result<(), static_xml::de::Error>,
    pub ser_string: fn(&Val, SerOpts<'_>) -> Result<String, String>,
    /// Calls the function given, which may be called many times, with what writes an element that
    /// contains the value that many times.
    pub ser_many:
        fn(&Val, &Name, &mut dyn FnMut(&dyn Fn(usize, SerOpts<'_>, &mut dyn Write) -> bool)),
    pub parse: Option<fn(&str) -> Result<TVal, static_xml::BoxedStdError>>,
    pub to_text: Option<fn(&TVal) -> Result<String, String>>,
}

/// An element which contains another many times.
struct Repeated<'a, T>(&'a T, &'a Name, usize);

impl<T: static_xml::ser::Serialize> static_xml::ser::Serialize for Repeated<'_, T> {
    fn write_attributes(
        &self,
        element: &mut static_xml::ser::ElementBuilder,
    ) -> Result<(), static_xml::ser::Error> {
        self.0.write_attributes(element)
    }

    fn write_children(
        &self,
        element: &mut static_xml::ser::ElementWriter,
    ) -> Result<(), static_xml::ser::Error> {
        for _ in 0..self.2 {
            // What `SerializeField::write` does.
            let mut e = element.element(name_ref(self.1));
            self.0.write_attributes(&mut e)?;
            let mut e = e.start()?;
            self.0.write_children(&mut e)?;
            e.finish()?;
        }
        Ok(())
    }
}

fn ser_many<T: Model + static_xml::ser::Serialize>(
    v: &Val,
    name: &Name,
    f: &mut dyn FnMut(&dyn Fn(usize, SerOpts<'_>, &mut dyn Write) -> bool),
) {
    let v = T::build(v);
    f(&|n, o, w| {
        let r = Repeated(&v, name, n);
        let s = static_xml::serialize_with_name(&r, name_ref(o.name.unwrap_or(name)));
        s.perform_indent(o.indent)
            .write_document_declaration(!o.no_decl)
            .to(w)
            .is_ok()
    })
}

fn finish(
    s: static_xml::ser::Serializer<'_>,
    o: SerOpts<'_>,
    w: &mut dyn Write,
) -> Result<(), String> {
    s.perform_indent(o.indent)
        .write_document_declaration(!o.no_decl)
        .to(w)
        .map_err(|e| e.to_string())
}

fn finish_string(s: static_xml::ser::Serializer<'_>, o: SerOpts<'_>) -> Result<String, String> {
    let s = s
        .write_document_declaration(!o.no_decl)
        .perform_indent(o.indent);
    s.to_string().map_err(|e| e.to_string())
}

fn de<T: static_xml::de::Deserialize + Model>(
    r: &mut dyn Read,
) -> Result<Val, static_xml::de::Error> {
    static_xml::de::read::<_, T>(r).map(|v| v.view())
}

fn de_drop<T: static_xml::de::Deserialize>(r: &mut dyn Read) -> Result<(), static_xml::de::Error> {
    static_xml::read::<_, T>(r).map(drop)
}

fn text_entry<T>() -> Entry
where
    T: TModel + Model + static_xml::de::ParseText + static_xml::ser::ToText,
{
    Entry {
        ser: |v, o, w| {
            let v = T::build(v);
            let n = o.name.expect("a text type needs a name");
            finish(static_xml::serialize_with_name(&v, name_ref(n)), o, w)
        },
        ser_string: |v, o| {
            let v = T::build(v);
            let n = o.name.expect("a text type needs a name");
            finish_string(static_xml::serialize_with_name(&v, name_ref(n)), o)
        },
        ser_many: ser_many::<T>,
        de: de::<T>,
        de_str: |s| static_xml::de::from_str::<T>(s).map(|v| v.view()),
        de_drop: de_drop::<T>,
        parse: Some(|s| T::parse(s.to_owned()).map(|v| v.tview())),
        to_text: Some(|v| T::tbuild(v).to_text().map_err(|e| e.to_string())),
    }
}

fn elem_entry<T>() -> Entry
where
    T: Model + static_xml::de::Deserialize + static_xml::ser::SerializeRoot,
{
    Entry {
        ser: |v, o, w| {
            let v = T::build(v);
            match o.name {
                None => finish(static_xml::serialize(&v), o, w),
                Some(n) => finish(static_xml::serialize_with_name(&v, name_ref(n)), o, w),
            }
        },
        ser_string: |v, o| {
            let v = T::build(v);
            match o.name {
                None => finish_string(static_xml::ser::serialize(&v), o),
                Some(n) => finish_string(static_xml::serialize_with_name(&v, name_ref(n)), o),
            }
        },
        ser_many: ser_many::<T>,
        de: de::<T>,
        de_str: |s| static_xml::de::from_str::<T>(s).map(|v| v.view()),
        de_drop: de_drop::<T>,
        parse: None,
        to_text: None,
    }
}

include!(concat!(env!("OUT_DIR"), "/zoo.rs"));

pub const SEED: &str = env!("ZOO_SEED");
