//! Simulated byte streams. Their behaviour is decided up front from the choice stream.

use crate::choice::Src;
use std::io::{self, ErrorKind, Read, Write};

pub const KINDS: [ErrorKind; 14] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::AlreadyExists,
];

/// How the simulated device reports an error of a kind.
pub fn device_error(kind: ErrorKind, flavour: usize) -> io::Error {
    match flavour {
        0 => io::Error::new(kind, "injected"),
        1 => io::Error::from(kind),
        _ => {
            let code = match kind {
                ErrorKind::BrokenPipe => libc::EPIPE,
                ErrorKind::ConnectionReset => libc::ECONNRESET,
                ErrorKind::PermissionDenied => libc::EACCES,
                ErrorKind::NotFound => libc::ENOENT,
                ErrorKind::WouldBlock => libc::EAGAIN,
                ErrorKind::TimedOut => libc::ETIMEDOUT,
                ErrorKind::StorageFull => libc::ENOSPC,
                ErrorKind::InvalidInput => libc::EINVAL,
                ErrorKind::OutOfMemory => libc::ENOMEM,
                ErrorKind::AlreadyExists => libc::EEXIST,
                kind => return io::Error::new(kind, "injected"),
            };
            io::Error::from_raw_os_error(code)
        }
    }
}

/// Chunk size policy: whole, bytewise, small, mixed.
#[derive(Clone, Debug)]
pub struct Chunks {
    sizes: Vec<usize>,
    interrupts: Vec<bool>,
    next: usize,
}

impl Chunks {
    pub fn gen(src: &mut Src) -> Chunks {
        let sizes = match src.below(5) {
            0 => vec![usize::MAX],
            1 => vec![1],
            2 => vec![src.range(2, 9)],
            3 => (0..src.range(2, 5)).map(|_| src.range(1, 40)).collect(),
            _ => vec![src.range(30, 400)],
        };
        let interrupts = match src.below(3) {
            0 => vec![false],
            _ => (0..src.range(2, 6))
                .map(|_| src.chance(1, 3))
                .chain([false])
                .collect(),
        };
        Chunks {
            sizes,
            interrupts,
            next: 0,
        }
    }

    /// The size of the next transfer, or `None` for an interruption.
    fn step(&mut self) -> Option<usize> {
        let i = self.next;
        self.next += 1;
        if self.interrupts[i % self.interrupts.len()] {
            return None;
        }
        Some(self.sizes[i % self.sizes.len()])
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Kind(ErrorKind, usize),
    /// A writer that accepts nothing more.
    Zero,
    Panic,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub calls: u64,
    pub interrupts: u64,
    pub short: u64,
    pub failures: u64,
    pub after_failure: u64,
    pub flushes: u64,
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    chunks: Chunks,
    /// Position at which reading fails.
    pub fail: Option<(usize, Fail)>,
    pub stats: Stats,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], chunks: Chunks, fail: Option<(usize, Fail)>) -> Self {
        SimReader {
            data,
            pos: 0,
            chunks,
            fail,
            stats: Stats::default(),
        }
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::sched::point("read");
        self.stats.calls += 1;
        if self.stats.failures > 0 {
            self.stats.after_failure += 1;
        }
        if let Some((at, fail)) = self.fail {
            if self.pos >= at {
                self.stats.failures += 1;
                match fail {
                    Fail::Kind(k, f) => return Err(device_error(k, f)),
                    Fail::Zero => return Ok(0),
                    Fail::Panic => crate::cx::inject_panic(),
                }
            }
        }
        let Some(n) = self.chunks.step() else {
            self.stats.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        };
        let end = self
            .fail
            .map_or(self.data.len(), |f| f.0)
            .min(self.data.len());
        let n = n.min(buf.len()).min(end - self.pos);
        if n < buf.len() && self.pos + n < self.data.len() {
            self.stats.short += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct SimWriter {
    pub accepted: Vec<u8>,
    chunks: Chunks,
    /// Number of bytes after which writing fails.
    pub fail: Option<(usize, Fail)>,
    /// The failure is permanent.
    pub sticky: bool,
    pub stats: Stats,
}

impl SimWriter {
    pub fn new(chunks: Chunks, fail: Option<(usize, Fail)>, sticky: bool) -> Self {
        SimWriter {
            accepted: Vec::new(),
            chunks,
            fail,
            sticky,
            stats: Stats::default(),
        }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        crate::sched::point("write");
        self.stats.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.stats.failures > 0 {
            self.stats.after_failure += 1;
        }
        if let Some((at, fail)) = self.fail {
            if self.accepted.len() >= at && (self.sticky || self.stats.failures == 0) {
                self.stats.failures += 1;
                match fail {
                    Fail::Kind(k, f) => return Err(device_error(k, f)),
                    Fail::Zero => return Ok(0),
                    Fail::Panic => crate::cx::inject_panic(),
                }
            }
        }
        let Some(n) = self.chunks.step() else {
            self.stats.interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        };
        let mut n = n.min(buf.len());
        if let Some((at, _)) = self.fail {
            if self.stats.failures == 0 {
                n = n.min(at - self.accepted.len());
            }
        }
        if n < buf.len() {
            self.stats.short += 1;
        }
        self.accepted.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        self.stats.flushes += 1;
        Ok(())
    }
}

pub fn gen_fail(src: &mut Src) -> Fail {
    if src.chance(1, 8) {
        return Fail::Zero;
    }
    Fail::Kind(*src.pick(&KINDS), src.below(3))
}
