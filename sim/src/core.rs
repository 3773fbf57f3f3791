//! Per-run simulation state: the seeded choice source, the event log, fault and
//! probe counters, and the virtual clock. All of it is thread-local; every
//! simulated run executes on a fresh thread, so no run sees another's state.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;

/// Nanoseconds, microseconds, milliseconds in the simulator's time unit.
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1000 * MS;

/// A property violation. `class` is stable under minimisation, `detail` explains.
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($arg:tt)*) => {
        $crate::core::Viol { class: ($class).to_string(), detail: format!($($arg)*) }
    };
}
#[macro_export]
macro_rules! bail {
    ($class:expr, $($arg:tt)*) => { return Err($crate::viol!($class, $($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !($cond) { $crate::bail!($class, $($arg)*) } };
}
#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => { $crate::core::event(format_args!($($arg)*)) };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub enum Mode {
    /// Draw fresh choices from a PRNG.
    Rng(u64),
    /// Replay recorded choices; once exhausted every choice is 0.
    Replay(Vec<u32>, usize),
}

pub struct Run {
    pub mode: Mode,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub events: u64,
    pub trace: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub checked: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub depth: u64,
    scratch: String,
    /// Crash-safe copy of the choices (mapped file), used when hunting crashes.
    pub mirror: *mut u32,
    pub mirror_cap: usize,
}

thread_local! {
    static RUN: RefCell<Option<Run>> = const { RefCell::new(None) };
    static SIM_ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static RAND: Cell<u64> = const { Cell::new(0) };
    static IDLE: Cell<u64> = const { Cell::new(0) };
}
/// Time spent only to establish that nothing will ever happen; not counted as covered.
pub fn idle(ns: u64) {
    IDLE.with(|c| c.set(c.get().saturating_add(ns)));
}
pub fn idle_total() -> u64 {
    IDLE.with(|c| c.get())
}

pub fn sim_on() -> bool {
    SIM_ON.try_with(|c| c.get()).unwrap_or(false)
}
/// The virtual clock, in nanoseconds since the run started.
pub fn now() -> u64 {
    NOW.with(|c| c.get())
}
pub fn set_now(t: u64) {
    NOW.with(|c| {
        if t > c.get() {
            c.set(t)
        }
    });
}
pub fn rand_bytes(buf: &mut [u8]) {
    RAND.with(|c| {
        let mut s = c.get();
        for b in buf {
            *b = splitmix(&mut s) as u8;
        }
        c.set(s);
    })
}

pub fn begin(mode: Mode, env_seed: u64, trace: bool, max_steps: u64) {
    NOW.with(|c| c.set(0));
    IDLE.with(|c| c.set(0));
    RAND.with(|c| c.set(env_seed ^ 0x5bd1e995));
    SIM_ON.with(|c| c.set(true));
    RUN.with(|r| {
        *r.borrow_mut() = Some(Run {
            mode,
            choices: Vec::with_capacity(256),
            hash: 0xcbf29ce484222325,
            events: 0,
            trace: trace.then(Vec::new),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            checked: 0,
            steps: 0,
            max_steps,
            depth: 0,
            scratch: String::with_capacity(128),
            mirror: std::ptr::null_mut(),
            mirror_cap: 0,
        })
    });
}
pub fn set_mirror(ptr: *mut u32, cap: usize) {
    with(|r| {
        r.mirror = ptr;
        r.mirror_cap = cap;
    })
}
pub fn end() -> Run {
    SIM_ON.with(|c| c.set(false));
    RUN.with(|r| r.borrow_mut().take()).expect("no run in progress")
}

pub fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T {
    crate::alloc::muted(|| RUN.with(|r| f(r.borrow_mut().as_mut().expect("no run in progress"))))
}

impl Run {
    fn draw(&mut self, n: u32) -> u32 {
        let v = match &mut self.mode {
            Mode::Rng(s) => {
                let x = splitmix(s);
                if n == 0 {
                    0
                } else {
                    ((x >> 32) % n as u64) as u32
                }
            }
            Mode::Replay(v, i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n == 0 {
                    0
                } else {
                    x % n
                }
            }
        };
        if !self.mirror.is_null() && self.choices.len() + 1 < self.mirror_cap {
            unsafe {
                *self.mirror.add(1 + self.choices.len()) = v;
                *self.mirror = self.choices.len() as u32 + 1;
            }
        }
        self.choices.push(v);
        v
    }
}

/// Uniform choice in `0..n` (0 when n is 0). 0 is always the simplest choice.
pub fn below(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|r| r.draw(n.min(u32::MAX as u64) as u32)) as u64
}
/// Inclusive range; `lo` is simplest.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + below(hi - lo + 1)
}
/// True with probability num/den; false is simplest.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    below(den) >= den - num.min(den)
}
pub fn coin() -> bool {
    chance(1, 2)
}
pub fn pick<T>(xs: &[T]) -> &T {
    &xs[below(xs.len() as u64) as usize]
}
/// Swarm-testing rate: often 0, otherwise one of several intensities (per mille).
pub fn swarm() -> u64 {
    *pick(&[0, 0, 0, 20, 80, 250, 500])
}
pub fn permille(rate: u64) -> bool {
    rate > 0 && chance(rate, 1000)
}
/// Fisher-Yates driven by the choice source.
pub fn shuffle<T>(xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        // 0 keeps the element in place, so the simplest choice is the identity.
        let j = i - below(i as u64 + 1) as usize;
        xs.swap(i, j);
    }
}

pub fn event(args: std::fmt::Arguments<'_>) {
    let t = now();
    with(|r| {
        let mut s = std::mem::take(&mut r.scratch);
        s.clear();
        let _ = s.write_fmt(args);
        let mut h = r.hash ^ t;
        for b in s.as_bytes() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        r.hash = h.rotate_left(5) ^ (h >> 32);
        r.events += 1;
        if let Some(tr) = &mut r.trace {
            tr.push(format!("[{:>10.3}s] {}", t as f64 / 1e9, s));
        }
        r.scratch = s;
    })
}
pub fn fault(name: &'static str) {
    with(|r| *r.faults.entry(name).or_insert(0) += 1);
}
pub fn probe(name: &'static str) {
    with(|r| *r.probes.entry(name).or_insert(0) += 1);
}
/// Counts comparisons made by an oracle.
pub fn checked(n: u64) {
    with(|r| r.checked += n);
}
/// Panic payload used for "too many steps".
pub struct Livelock;
/// One simulator step; too many of them in a run is a livelock.
pub fn step() {
    let over = with(|r| {
        r.steps += 1;
        r.steps > r.max_steps
    });
    if over {
        std::panic::panic_any(Livelock);
    }
}
pub fn show(b: &[u8]) -> String {
    let s = b.escape_ascii().to_string();
    if s.len() > 300 {
        format!("{}...({} bytes)", &s[..300], b.len())
    } else {
        s
    }
}
