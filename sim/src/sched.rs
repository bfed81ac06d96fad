//! A scheduler for real threads: one runs at a time, and which one goes on is chosen at every
//! point where user code runs and at chosen memory allocations.

use crate::choice::Src;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// Allocations

pub struct Alloc;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static QUIET: Cell<u32> = const { Cell::new(1) };
}

#[inline]
fn allocation() {
    if QUIET.get() > 0 {
        return;
    }
    let n = COUNT.get();
    COUNT.set(n + 1);
    if n >= NEXT.get() {
        preempted();
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        allocation();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        allocation();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        allocation();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Allocations of the simulator do not count.
struct Quiet;

impl Quiet {
    fn new() -> Quiet {
        QUIET.set(QUIET.get() + 1);
        Quiet
    }
}

impl Drop for Quiet {
    fn drop(&mut self) {
        QUIET.set(QUIET.get() - 1);
    }
}

#[cold]
fn preempted() {
    let _q = Quiet::new();
    if std::thread::panicking() {
        return;
    }
    NEXT.set(u64::MAX);
    let ctl = ACTIVE.with(|a| {
        let mut a = a.try_borrow_mut().ok()?;
        let a = a.as_mut()?;
        if let Some(f) = a.frames.last_mut() {
            let now = COUNT.get() - f.base;
            f.preempt.retain(|n| *n > now);
        }
        a.ctl.clone().map(|c| (c, a.id))
    });
    arm();
    if let Some((sched, id)) = ctl {
        sched.switch(id, "allocation");
    }
}

/// Sets the next allocation at which the thread is interrupted.
fn arm() {
    let next = ACTIVE.with(|a| {
        let a = a.try_borrow().ok()?;
        let f = a.as_ref()?.frames.last()?;
        f.preempt.first().map(|n| n + f.base)
    });
    NEXT.set(next.unwrap_or(u64::MAX));
}

// ---------------------------------------------------------------------------------------------
// Points

type Nested = Arc<dyn Fn(usize) + Send + Sync>;

struct Frame {
    points: usize,
    /// Points at which another job is run inside this one.
    nest: Vec<(usize, usize)>,
    /// Allocations at which the thread is interrupted, in order.
    preempt: Vec<u64>,
    base: u64,
}

struct Active {
    id: usize,
    ctl: Option<Arc<Sched>>,
    frames: Vec<Frame>,
    nested: Option<Nested>,
}

thread_local! {
    static ACTIVE: RefCell<Option<Active>> = const { RefCell::new(None) };
}

/// Makes this a simulated thread, alone or under a scheduler.
pub fn enter(id: usize, ctl: Option<Arc<Sched>>, nested: Option<Nested>) {
    ACTIVE.with(|a| {
        *a.borrow_mut() = Some(Active {
            id,
            ctl,
            frames: vec![],
            nested,
        })
    });
}

/// How much a job has done.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Done {
    pub points: usize,
    pub allocs: u64,
}

/// How a job is disturbed.
#[derive(Clone, Debug, Default)]
pub struct Disturb {
    pub nest: Vec<(usize, usize)>,
    pub preempt: Vec<u64>,
}

pub fn depth() -> usize {
    ACTIVE.with(|a| a.borrow().as_ref().map_or(0, |a| a.frames.len()))
}

/// Runs a job as part of the simulated thread.
pub fn job<R>(d: &Disturb, f: impl FnOnce() -> R) -> (R, Done) {
    let base = COUNT.get();
    ACTIVE.with(|a| {
        if let Some(a) = a.borrow_mut().as_mut() {
            a.frames.push(Frame {
                points: 0,
                nest: d.nest.clone(),
                preempt: d.preempt.clone(),
                base,
            });
        }
    });
    arm();
    let old = QUIET.replace(0);
    let r = f();
    QUIET.set(old);
    let done = ACTIVE.with(|a| {
        let mut a = a.borrow_mut();
        let f = a.as_mut().and_then(|a| a.frames.pop());
        Done {
            points: f.map_or(0, |f| f.points),
            allocs: COUNT.get() - base,
        }
    });
    arm();
    (r, done)
}

/// User code runs: other threads may go on, or another job is run within this one.
pub fn point(label: &'static str) {
    if QUIET.get() > 0 || std::thread::panicking() {
        return;
    }
    let _q = Quiet::new();
    let (ctl, nest) = ACTIVE.with(|a| {
        let mut a = a.borrow_mut();
        let Some(a) = a.as_mut() else { return (None, None) };
        let id = a.id;
        let mut nest = None;
        if let Some(f) = a.frames.last_mut() {
            let n = f.points;
            f.points += 1;
            nest = f.nest.iter().find(|(k, _)| *k == n).map(|(_, j)| *j);
        }
        (a.ctl.clone().map(|c| (c, id)), nest.and_then(|j| a.nested.clone().map(|f| (f, j))))
    });
    if let Some((sched, id)) = ctl {
        sched.switch(id, label);
    }
    if let Some((f, j)) = nest {
        f(j);
    }
}

/// Runs what belongs to the simulator.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::new();
    f()
}

// ---------------------------------------------------------------------------------------------
// Scheduler

#[derive(Clone, Copy, Debug, PartialEq)]
enum Status {
    Ready,
    /// It does not reach a point: it waits for something another thread holds.
    Stuck,
    Done,
}

pub struct State {
    pub src: Src,
    pub events: Vec<String>,
    pub switches: u64,
    pub interrupted: u64,
    pub stuck: u64,
    current: usize,
    status: Vec<Status>,
    progress: u64,
    /// A thread goes on with chance `1 - 1/patience`.
    patience: usize,
}

pub struct Sched {
    state: Mutex<State>,
    wake: Vec<Condvar>,
    over: Condvar,
}

impl Sched {
    pub fn new(src: Src, threads: usize, patience: usize) -> Arc<Sched> {
        Arc::new(Sched {
            state: Mutex::new(State {
                src,
                events: vec![],
                switches: 0,
                interrupted: 0,
                stuck: 0,
                current: usize::MAX,
                status: vec![Status::Ready; threads],
                progress: 0,
                patience,
            }),
            wake: (0..threads).map(|_| Condvar::new()).collect(),
            over: Condvar::new(),
        })
    }

    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|p| p.into_inner())
    }

    fn wait<'a>(&'a self, mut s: MutexGuard<'a, State>, id: usize) -> MutexGuard<'a, State> {
        while s.current != id {
            s.status[id] = Status::Ready;
            s = self.wake[id].wait(s).unwrap_or_else(|p| p.into_inner());
        }
        s
    }

    /// Chooses the next thread, with the current one first if it may go on.
    fn choose(&self, s: &mut State, go_on: Option<usize>) {
        let mut ready: Vec<usize> = go_on.into_iter().collect();
        ready.extend((0..s.status.len()).filter(|t| s.status[*t] == Status::Ready && Some(*t) != go_on));
        if ready.is_empty() {
            s.current = usize::MAX;
            self.over.notify_all();
            return;
        }
        let stay = go_on.is_some() && s.patience > 1 && ready.len() > 1 && !s.src.chance(1, s.patience);
        let next = if stay { ready[0] } else { ready[s.src.below(ready.len())] };
        if go_on.is_some_and(|g| g != next) {
            s.switches += 1;
        }
        s.current = next;
        s.progress += 1;
        if go_on != Some(next) {
            self.wake[next].notify_one();
        }
    }

    fn switch(&self, id: usize, label: &str) {
        let mut s = self.lock();
        if s.current != id {
            // It was taken for stuck and others went on.
            s = self.wait(s, id);
        }
        if label == "allocation" {
            s.interrupted += 1;
        }
        self.choose(&mut s, Some(id));
        let to = s.current;
        if s.status.len() > 1 {
            s.events.push(format!("t{id} {label} -> t{to}"));
        }
        let _s = self.wait(s, id);
    }

    /// A thread waits for its first turn.
    pub fn begin(&self, id: usize) {
        let s = self.lock();
        let _s = self.wait(s, id);
    }

    pub fn note(&self, text: String) {
        self.lock().events.push(text);
    }

    pub fn end(&self, id: usize) {
        let mut s = self.lock();
        s.status[id] = Status::Done;
        s.events.push(format!("t{id} ends"));
        if s.current == id || s.current == usize::MAX {
            self.choose(&mut s, None);
        }
        self.over.notify_all();
    }

    /// Runs the threads to their end; false if they do not get there.
    pub fn drive(&self, limit: Duration) -> bool {
        let start = Instant::now();
        let mut s = self.lock();
        self.choose(&mut s, None);
        let mut last = s.progress;
        let mut seen = Instant::now();
        loop {
            if s.status.iter().all(|x| *x == Status::Done) {
                return true;
            }
            let (g, _) = self
                .over
                .wait_timeout(s, Duration::from_millis(100))
                .unwrap_or_else(|p| p.into_inner());
            s = g;
            if s.progress != last {
                last = s.progress;
                seen = Instant::now();
            } else if s.current == usize::MAX {
                if s.status.contains(&Status::Ready) {
                    self.choose(&mut s, None);
                }
            } else if seen.elapsed() > Duration::from_millis(700) {
                // The current thread waits for a lock.
                let c = s.current;
                if s.status[c] == Status::Ready && (0..s.status.len()).any(|t| t != c && s.status[t] == Status::Ready) {
                    s.status[c] = Status::Stuck;
                    s.stuck += 1;
                    s.events.push(format!("t{c} waits"));
                    self.choose(&mut s, None);
                }
                seen = Instant::now();
            }
            if start.elapsed() > limit {
                return false;
            }
        }
    }

    pub fn finish(self: Arc<Sched>) -> State {
        let mut s = self.lock();
        std::mem::replace(
            &mut *s,
            State {
                src: Src::replay(vec![]),
                events: vec![],
                switches: 0,
                interrupted: 0,
                stuck: 0,
                current: usize::MAX,
                status: vec![],
                progress: 0,
                patience: 1,
            },
        )
    }
}

// ---------------------------------------------------------------------------------------------
// Processes

/// Runs a closure in a process of its own, which leaves nothing behind in this one.
pub fn isolated(limit_s: u32, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("no pipe".into());
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(limit_s);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let mut out = std::fs::File::from_raw_fd(fds[1]);
            let code = match r {
                Ok(b) => i32::from(out.write_all(&b).is_err()),
                Err(_) => {
                    let _ = out.write_all(crate::runner::last_panic().as_bytes());
                    101
                }
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut bytes = vec![];
        let mut input = std::fs::File::from_raw_fd(fds[0]);
        let read = input.read_to_end(&mut bytes);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if pid < 0 || read.is_err() {
            return Err("no process".into());
        }
        if libc::WIFSIGNALED(status) {
            return Err(match libc::WTERMSIG(status) {
                libc::SIGALRM => format!("does not end within {limit_s} s"),
                s => format!("ended by signal {s}"),
            });
        }
        match libc::WEXITSTATUS(status) {
            0 => Ok(bytes),
            101 => Err(format!("panicked: {}", String::from_utf8_lossy(&bytes))),
            s => Err(format!("ended with status {s}")),
        }
    }
}
