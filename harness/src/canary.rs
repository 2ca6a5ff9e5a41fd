//! A text type which notices leaks, double drops, and drops of uninitialized memory.

use static_xml::{de::ParseText, ser::ToText, BoxedStdError};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
struct Registry {
    live: HashMap<u64, ()>,
    next: u64,
    created: u64,
    faults: Vec<String>,
    /// Counts down to a panic within `parse` or `default`.
    panic_in: Option<u64>,
    /// How many times those were called.
    events: u64,
}

thread_local! {
    static REGISTRY: RefCell<Registry> = RefCell::default();
}

const MAGIC: u64 = 0x5ca1_ab1e_c0ff_ee11;

#[derive(Debug)]
pub struct Canary {
    magic: u64,
    serial: u64,
    text: String,
}

impl Canary {
    pub fn new(text: &str) -> Self {
        let serial = REGISTRY.with(|r| {
            let mut r = r.borrow_mut();
            let s = r.next;
            r.next += 1;
            r.created += 1;
            r.live.insert(s, ());
            s
        });
        Canary {
            magic: MAGIC ^ serial,
            serial,
            text: text.to_owned(),
        }
    }

    pub fn text(&self) -> &str {
        if self.magic != MAGIC ^ self.serial {
            fault("a canary has a corrupt header");
        }
        &self.text
    }
}

fn fault(s: &str) {
    REGISTRY.with(|r| r.borrow_mut().faults.push(s.to_owned()));
}

impl Default for Canary {
    fn default() -> Self {
        maybe_panic();
        Canary::new("dflt")
    }
}

impl Drop for Canary {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.serial {
            fault("dropped a value that was never initialized, or was dropped before");
            // Freeing `text` would likely crash before this gets reported.
            std::mem::forget(std::mem::take(&mut self.text));
            return;
        }
        self.magic = 0;
        let known = REGISTRY.with(|r| r.borrow_mut().live.remove(&self.serial).is_some());
        if !known {
            fault("dropped a value twice");
            std::mem::forget(std::mem::take(&mut self.text));
        }
    }
}

/// Forgets everything and arranges for the `n`th `parse` or `default` to panic.
pub fn reset(panic_in: Option<u64>) {
    REGISTRY.with(|r| {
        let mut r = r.borrow_mut();
        let next = r.next;
        *r = Registry::default();
        r.next = next;
        r.panic_in = panic_in;
    });
}

/// Returns how many were created since `reset`, how many of them are live, and what went wrong.
pub fn report() -> (u64, usize, Vec<String>) {
    REGISTRY.with(|r| {
        let r = r.borrow();
        (r.created, r.live.len(), r.faults.clone())
    })
}

/// How many times `parse` and `default` were called since `reset`.
pub fn events() -> u64 {
    REGISTRY.with(|r| r.borrow().events)
}

fn maybe_panic() {
    crate::points::point();
    let boom = REGISTRY.with(|r| {
        let mut r = r.borrow_mut();
        r.events += 1;
        match r.panic_in {
            Some(0) => {
                r.panic_in = None;
                true
            }
            Some(n) => {
                r.panic_in = Some(n - 1);
                false
            }
            None => false,
        }
    });
    if boom {
        std::panic::panic_any(CanaryPanic);
    }
}

/// The text which `parse` rejects.
pub fn rejects(text: &str) -> bool {
    text.starts_with("bad")
}

#[derive(Debug)]
pub struct CanaryError(pub String);

impl std::fmt::Display for CanaryError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "canary doesn't like {:?}", self.0)
    }
}

impl std::error::Error for CanaryError {}

pub struct CanaryPanic;

impl ParseText for Canary {
    fn parse(text: String) -> Result<Self, BoxedStdError> {
        maybe_panic();
        if rejects(&text) {
            return Err(Box::new(CanaryError(text)));
        }
        Ok(Canary::new(&text))
    }
}

impl ToText for Canary {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        crate::points::point();
        if self.text().starts_with("unwritable") {
            return Err(static_xml::ser::Error("canary can't be written".to_owned()));
        }
        Ok(self.text().to_owned())
    }
}
