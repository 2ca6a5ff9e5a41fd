//! Byte sources and sinks which behave in every way that `std::io` allows.

use std::io::{self, ErrorKind, Read, Write};

/// Yields its bytes in pieces of the given sizes (then all at once), perhaps interrupted by
/// signals, perhaps failing after `fail_at` bytes.
pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub next: usize,
    /// Report an interruption before every `n`th read.
    pub interrupt: usize,
    pub fail: Option<(usize, ErrorKind)>,
    /// Whether to go on as if nothing had happened after having failed once.
    pub once: bool,
    /// How many times the fault was reported.
    pub failed: usize,
    pub calls: usize,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Source {
            data,
            pos: 0,
            sizes: vec![],
            next: 0,
            interrupt: 0,
            fail: None,
            once: false,
            failed: 0,
            calls: 0,
        }
    }
}

/// What a `Source` fails with, so that it can be recognized.
#[derive(Debug)]
pub struct Injected(pub u64);

impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}

impl std::error::Error for Injected {}

impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.fail {
            let over = self.once && self.failed > 0;
            if self.pos >= at && !over {
                self.failed += 1;
                return Err(io::Error::new(kind, Injected(at as u64)));
            }
            if !over {
                end = end.min(at);
            }
        }
        let mut n = buf.len().min(end - self.pos);
        if let Some(&s) = self.sizes.get(self.next) {
            self.next += 1;
            n = n.min(s.max(1));
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// Every write from then on fails.
    Broken(ErrorKind),
    /// One write fails, and later ones would work.
    Once(ErrorKind),
    /// Every write from then on accepts nothing.
    Full,
}

/// Keeps what's written, failing as told.
pub struct Sink {
    pub data: Vec<u8>,
    /// The most to accept at a time; 0 for everything.
    pub most: usize,
    pub interrupt: usize,
    /// Which write to fail, counting those which aren't interrupted.
    pub fail: Option<(usize, Fault)>,
    pub calls: usize,
    pub writes: usize,
    /// Whether a fault was reported.
    pub failed: bool,
    /// Whether there was another attempt thereafter, which would corrupt the output.
    pub after: bool,
}

impl Sink {
    pub fn new() -> Self {
        Sink {
            data: Vec::new(),
            most: 0,
            interrupt: 0,
            fail: None,
            calls: 0,
            writes: 0,
            failed: false,
            after: false,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.failed {
            self.after = true;
        }
        let w = self.writes;
        self.writes += 1;
        if let Some((at, fault)) = self.fail {
            match fault {
                Fault::Broken(k) if w >= at => {
                    self.failed = true;
                    return Err(io::Error::new(k, Injected(at as u64)));
                }
                Fault::Once(k) if w == at => {
                    self.failed = true;
                    return Err(io::Error::new(k, Injected(at as u64)));
                }
                Fault::Full if w >= at => {
                    self.failed = true;
                    return Ok(0);
                }
                _ => {}
            }
        }
        let n = match self.most {
            0 => buf.len(),
            m => buf.len().min(m),
        };
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
