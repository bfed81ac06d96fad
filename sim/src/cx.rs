//! Per-run context: choices, event trace, counters.

use crate::choice::{mix, Src};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Check<T = ()> = Result<T, Violation>;

pub fn violation<T>(class: &str, msg: impl Into<String>) -> Check<T> {
    Err(Violation {
        class: class.to_string(),
        msg: msg.into(),
    })
}

pub struct Cx {
    pub src: Src,
    /// Hash over all events so far: identifies the execution.
    pub sig: u64,
    pub trace: Option<Vec<String>>,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// The run did something (as opposed to an empty document without operations).
    pub nontrivial: bool,
    pub thorough: bool,
    buf: String,
}

impl Cx {
    pub fn new(src: Src, tracing: bool) -> Cx {
        Cx {
            src,
            sig: 0xcbf2_9ce4_8422_2325,
            trace: tracing.then(Vec::new),
            steps: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            nontrivial: false,
            thorough: false,
            buf: String::new(),
        }
    }

    /// Records an event. The event text is part of the execution's identity.
    pub fn ev(&mut self, args: std::fmt::Arguments) {
        self.buf.clear();
        let _ = self.buf.write_fmt(args);
        self.steps += 1;
        let mut h = self.sig;
        for b in self.buf.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.sig = mix(h);
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let mut s = self.buf.clone();
                if s.len() > 1500 {
                    let mut n = 1500;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    s.push('…');
                }
                t.push(s);
            }
        }
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }

    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
}

#[macro_export]
macro_rules! ev {
    ($cx:expr, $($arg:tt)*) => { $cx.ev(format_args!($($arg)*)) };
}

/// Payload of panics the simulator injects through user callbacks.
pub struct Injected;

pub fn inject_panic() -> ! {
    std::panic::resume_unwind(Box::new(Injected))
}

pub fn is_injected(payload: &(dyn std::any::Any + Send)) -> bool {
    payload.is::<Injected>()
}
