//! Decides the properties of static-xml listed in `../properties.jsonl`.

#![cfg_attr(not(feature = "zoo"), allow(dead_code))]

/// Makes something which differs from others only after 300 bytes.
macro_rules! long {
    ($end:literal) => {
        concat!(
            "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-",
            "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-",
            "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-",
            "long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-",
            $end
        )
    };
}

mod alloc;
mod canary;
mod engine;
mod io;
mod model;
mod points;
mod props;
#[cfg(feature = "zoo")]
mod scen;
mod schema;
mod schema_hand;
mod source;
mod xmltree;
#[cfg(feature = "zoo")]
mod zoo;

/// What `static_xml` calls this is private.
pub type Boxed = Box<dyn std::error::Error + Send + Sync + 'static>;

fn main() {
    engine::main(&props::all())
}
