//! The properties.

use crate::engine::Prop;

mod builder;
#[cfg(feature = "zoo")]
mod declared;
#[cfg(feature = "zoo")]
mod derive;
#[cfg(feature = "zoo")]
mod errors;
#[cfg(feature = "zoo")]
mod faults;
#[cfg(feature = "zoo")]
mod history;
#[cfg(feature = "zoo")]
mod memory;
#[cfg(feature = "zoo")]
mod probes;
mod programs;
#[cfg(feature = "zoo")]
mod protocol;
#[cfg(feature = "zoo")]
mod roundtrip;
#[cfg(feature = "zoo")]
mod space;
mod text;
#[cfg(feature = "zoo")]
mod time;
mod visitor;
#[cfg(feature = "zoo")]
mod wellformed;

pub fn all() -> Vec<Prop> {
    let mut v: Vec<Prop> = Vec::new();
    #[cfg(feature = "zoo")]
    {
        v.extend_from_slice(roundtrip::PROPS);
        v.extend_from_slice(declared::PROPS);
        v.extend_from_slice(derive::PROPS);
        v.extend_from_slice(errors::PROPS);
        v.extend_from_slice(faults::PROPS);
        v.extend_from_slice(history::PROPS);
        v.extend_from_slice(memory::PROPS);
        v.extend_from_slice(protocol::PROPS);
        v.extend_from_slice(space::PROPS);
        v.extend_from_slice(time::PROPS);
        v.extend_from_slice(wellformed::PROPS);
    }
    v.extend_from_slice(builder::PROPS);
    v.extend_from_slice(programs::PROPS);
    v.extend_from_slice(text::PROPS);
    v.extend_from_slice(visitor::PROPS);
    v.sort_by_key(|p| p.id);
    v
}
