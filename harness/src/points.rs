//! Points at which the library has called the harness: where a read or write may be interrupted.

use std::cell::Cell;
use std::io::{self, Read, Write};

thread_local! {
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

pub fn set_hook(f: Option<fn()>) {
    HOOK.with(|h| h.set(f));
}

pub fn point() {
    if let Some(f) = HOOK.with(|h| h.get()) {
        f();
    }
}

/// Makes a point of each call.
pub struct Pointed<T>(pub T);

impl<T: Read> Read for Pointed<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        point();
        self.0.read(buf)
    }
}

impl<T: Write> Write for Pointed<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        point();
        self.0.write(buf)
    }

    fn flush(&mut self) -> io::Result<()> {
        point();
        self.0.flush()
    }
}
