//! Random choices, the event log and the violation exit. Everything here is interpreted by Miri,
//! so it is kept small.
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// Decides what a scenario does. Only the main thread uses it, before any other thread starts.
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0, 7) % n
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 0
    }
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) < a
    }
}

/// Operations minimising removed, as a bit set.
static SKIP: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
static NEXT_OP: AtomicUsize = AtomicUsize::new(0);
static SHOW: AtomicU32 = AtomicU32::new(0);
/// Relaxed, like the log below: they tell the order of events afterwards without ordering anything.
static TICKET: AtomicUsize = AtomicUsize::new(0);
const SLOTS: usize = 512;
static LOG: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static KINDS: [AtomicU64; NAMES.len()] = [const { AtomicU64::new(0) }; NAMES.len()];
static CHECKS: AtomicU64 = AtomicU64::new(0);

pub const NAMES: &[&str] = &["case", "check", "check_shared", "clone", "clone_drop", "clone_shared", "convert", "drop", "drop_shared", "edit", "give", "held", "into_vec", "is_closed", "is_empty", "last_drop", "late_recv", "lossy", "may_send", "owning", "park", "park_moved", "peek", "peek_none", "queue", "recv", "recv_none", "rx_drop", "secret", "send_failed", "send_ok", "split", "spurious", "take", "threads", "unpark", "utf8", "values"];
pub const fn kind(s: &str) -> u8 {
    let mut i = 0;
    while i < NAMES.len() {
        let (a, b) = (NAMES[i].as_bytes(), s.as_bytes());
        if a.len() == b.len() {
            let mut j = 0;
            while j < a.len() && a[j] == b[j] {
                j += 1;
            }
            if j == a.len() {
                return i as u8;
            }
        }
        i += 1;
    }
    panic!("event missing from NAMES")
}
macro_rules! k {
    ($s:expr) => {
        const { $crate::core::kind($s) }
    };
}
pub(crate) use k;

pub fn set_skip(v: Vec<usize>) {
    for n in v {
        SKIP[n / 64].fetch_or(1 << (n % 64), Relaxed);
    }
}
/// Called once per planned operation, in planning order: false if minimising removed it.
pub fn keep() -> bool {
    let n = NEXT_OP.fetch_add(1, Relaxed);
    SKIP[n / 64 % 4].load(Relaxed) >> (n % 64) & 1 == 0
}
pub fn begin(show: bool) {
    SHOW.store(show as u32, Relaxed);
    TICKET.store(0, Relaxed);
    NEXT_OP.store(0, Relaxed);
}
/// After every thread of the scenario ended: the hash of its event log and its operation count.
pub fn end() -> (u64, usize) {
    let n = TICKET.load(Relaxed).min(SLOTS);
    let mut h = n as u64;
    for s in &LOG[..n] {
        h = mix(h, s.load(Relaxed));
    }
    (h, NEXT_OP.load(Relaxed))
}
pub fn planned() {
    if SHOW.load(Relaxed) != 0 {
        eprintln!("O {}", NEXT_OP.load(Relaxed));
    }
}
pub fn totals() {
    let mut s = format!("T checks={}", CHECKS.load(Relaxed));
    for (i, k) in KINDS.iter().enumerate() {
        let n = k.load(Relaxed);
        if n > 0 {
            s.push_str(&format!(" {}={n}", NAMES[i]));
        }
    }
    println!("{s}");
}
pub fn checked(n: u64) {
    CHECKS.fetch_add(n, Relaxed);
}

/// One thread's access to the event log.
pub struct Log(u8);
impl Log {
    pub fn new(thread: u8) -> Log {
        Log(thread)
    }
    pub fn ev(&mut self, kind: u8, v: u64) {
        let t = TICKET.fetch_add(1, Relaxed);
        if SHOW.load(Relaxed) != 0 {
            eprintln!("  {t:3} thread {}: {} {v}", self.0, NAMES[kind as usize]);
        }
        KINDS[kind as usize].fetch_add(1, Relaxed);
        if t < SLOTS {
            LOG[t].store((v << 16) ^ ((self.0 as u64) << 8) ^ kind as u64, Relaxed);
        }
    }
}

pub fn violation(class: &str, detail: String) -> ! {
    eprintln!("VZ-VIOLATION {class}: {detail}");
    std::process::exit(1)
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($t:tt)*) => {
        if !$c {
            $crate::core::violation($class, format!($($t)*))
        }
    };
}
pub(crate) use ensure;

/// A value whose destruction is counted, with memory of its own.
#[derive(Debug)]
pub struct Tracked {
    pub id: usize,
    body: Box<[usize; 2]>,
}
static DROPS: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
impl Tracked {
    pub fn new(id: usize) -> Tracked {
        Tracked { id, body: Box::new([id, !id]) }
    }
    pub fn check(&self) {
        ensure!(*self.body == [self.id, !self.id], "torn", "value {} has the contents {:?}", self.id, self.body);
        ensure!(drops(self.id) == 0, "use_after_drop", "value {} is in use after being dropped", self.id);
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let n = DROPS[self.id].fetch_add(1, Relaxed);
        ensure!(n == 0, "double_drop", "value {} was dropped {} times", self.id, n + 1);
    }
}
pub fn drops(id: usize) -> u32 {
    DROPS[id].load(Relaxed)
}
/// Reads how often a value was dropped and prepares for the next scenario.
pub fn take_drops(id: usize) -> u32 {
    DROPS[id].swap(0, Relaxed)
}
/// Takes a little or a lot of schedule time.
pub fn pause(n: u64) {
    for _ in 0..n {
        std::thread::yield_now();
    }
}
