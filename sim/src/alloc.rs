//! Guarding allocator: detects double frees, frees of foreign pointers, writes
//! past either end of a block, and (through a quarantine of poisoned blocks)
//! writes after free. Fresh memory is filled with a pattern so that reads of
//! uninitialised memory are visible and deterministic. Also counts live bytes
//! per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Guard;

const HEAD: usize = 32;
const TAIL: usize = 16;
const LIVE: u64 = 0x5AFE_A110_C8ED_0001;
const FREED: u64 = 0xDEAD_F2EE_DEAD_0002;
const TAIL_BYTE: u8 = 0xC5;
pub const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
const RING: usize = 2048;
const RING_BYTES: usize = 1 << 20;

thread_local! {
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static MUTED: Cell<bool> = const { Cell::new(false) };
}
/// Runs harness bookkeeping whose memory is not counted.
pub fn muted<T>(f: impl FnOnce() -> T) -> T {
    let old = MUTED.with(|c| c.replace(true));
    let r = f();
    MUTED.with(|c| c.set(old));
    r
}

/// (live bytes, live blocks) allocated minus freed by this thread.
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}
pub fn peak() -> i64 {
    PEAK_BYTES.with(|c| c.get())
}
pub fn reset_peak() {
    let l = LIVE_BYTES.with(|c| c.get());
    PEAK_BYTES.with(|c| c.set(l));
}

const WATCH: usize = 512;
#[derive(Clone, Copy)]
struct Watch {
    n: usize,
    /// Ranges (address, length) that must be all zero when their block is freed.
    r: [(usize, usize); WATCH],
    /// First violation: (length of the range, offset of the first nonzero byte).
    bad: Option<(usize, usize)>,
    wiped: u64,
    full: bool,
}
thread_local! {
    static WATCHED: std::cell::UnsafeCell<Watch> =
        const { std::cell::UnsafeCell::new(Watch { n: 0, r: [(0, 0); WATCH], bad: None, wiped: 0, full: false }) };
}
fn with_watch<T>(f: impl FnOnce(&mut Watch) -> T) -> Option<T> {
    WATCHED.try_with(|w| f(unsafe { &mut *w.get() })).ok()
}
/// Requires this memory to be zero by the time it is given back.
pub fn watch(s: &[u8]) {
    let (a, l) = (s.as_ptr() as usize, s.len());
    if l == 0 {
        return;
    }
    with_watch(|w| {
        if w.r[..w.n].iter().any(|(b, m)| *b <= a && a + l <= b + m) {
            return;
        }
        if w.n == WATCH {
            w.full = true;
            return;
        }
        w.r[w.n] = (a, l);
        w.n += 1;
    });
}
/// Forgets watched ranges that overlap this memory.
pub fn unwatch(start: *const u8, len: usize) {
    let a = start as usize;
    with_watch(|w| {
        let mut i = 0;
        while i < w.n {
            let (b, m) = w.r[i];
            if b < a + len && a < b + m {
                w.n -= 1;
                w.r[i] = w.r[w.n];
            } else {
                i += 1;
            }
        }
    });
}
pub struct Watched {
    /// Ranges still allocated.
    pub live: usize,
    pub bad: Option<(usize, usize)>,
    /// Ranges freed after having been wiped.
    pub wiped: u64,
    pub full: bool,
}
pub fn watched() -> Watched {
    with_watch(|w| Watched { live: w.n, bad: w.bad, wiped: w.wiped, full: w.full }).expect("watch")
}
pub fn watch_reset() {
    with_watch(|w| {
        w.n = 0;
        w.bad = None;
        w.wiped = 0;
        w.full = false;
    });
}
/// Byte strings that no block may still contain when it is freed.
struct Needles {
    n: usize,
    on: bool,
    d: [([u8; 96], usize); 6],
    hit: Option<usize>,
}
thread_local! {
    static NEEDLES: std::cell::UnsafeCell<Needles> =
        const { std::cell::UnsafeCell::new(Needles { n: 0, on: false, d: [([0; 96], 0); 6], hit: None }) };
}
fn with_needles<T>(f: impl FnOnce(&mut Needles) -> T) -> Option<T> {
    NEEDLES.try_with(|w| f(unsafe { &mut *w.get() })).ok()
}
pub fn needle(s: &[u8]) {
    with_needles(|w| {
        if w.n < w.d.len() && s.len() >= 6 && s.len() <= 96 {
            w.d[w.n].0[..s.len()].copy_from_slice(s);
            w.d[w.n].1 = s.len();
            w.n += 1;
            w.on = true;
        }
    });
}
pub fn needles_off() {
    with_needles(|w| w.on = false);
}
pub fn needles_reset() {
    with_needles(|w| {
        w.n = 0;
        w.on = false;
        w.hit = None;
    });
}
/// The size of a freed block that still held a needle.
pub fn needle_hit() -> Option<usize> {
    with_needles(|w| w.hit).flatten()
}
unsafe fn check_needles(p: *mut u8, size: usize) {
    with_needles(|w| {
        if !w.on || w.hit.is_some() {
            return;
        }
        let s = std::slice::from_raw_parts(p, size);
        for (d, l) in &w.d[..w.n] {
            let (f, d) = (d[0], &d[..*l]);
            if s.len() >= d.len() && s[..=s.len() - d.len()].iter().enumerate().any(|(i, b)| *b == f && s[i..].starts_with(d)) {
                w.hit = Some(size);
            }
        }
    });
}
unsafe fn check_watch(p: *mut u8, size: usize) {
    with_watch(|w| {
        let a = p as usize;
        let mut i = 0;
        while i < w.n {
            let (b, m) = w.r[i];
            if b >= a && b < a + size {
                let s = std::slice::from_raw_parts(b as *const u8, m.min(a + size - b));
                match s.iter().position(|x| *x != 0) {
                    None => w.wiped += 1,
                    Some(o) if w.bad.is_none() => w.bad = Some((m, o)),
                    _ => {}
                }
                w.n -= 1;
                w.r[i] = w.r[w.n];
            } else {
                i += 1;
            }
        }
    });
}

struct Ring {
    slots: [(usize, usize, usize); RING],
    head: usize,
    count: usize,
    bytes: usize,
}
static LOCK: AtomicBool = AtomicBool::new(false);
static mut Q: Ring = Ring { slots: [(0, 0, 0); RING], head: 0, count: 0, bytes: 0 };

#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    off: u64,
    pad: u64,
}

fn die(what: &str) -> ! {
    let pre = b"vzsim-alloc: memory corruption: ";
    unsafe {
        libc::write(2, pre.as_ptr().cast(), pre.len());
        libc::write(2, what.as_ptr().cast(), what.len());
        libc::write(2, b"\n".as_ptr().cast(), 1);
        libc::abort()
    }
}

fn offset(align: usize) -> usize {
    HEAD.max(align)
}

fn account(d: i64, b: i64) {
    let _ = LIVE_BYTES.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        if v > 1 << 30 {
            die("a single run holds more than 1 GiB");
        }
        let _ = PEAK_BYTES.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BLOCKS.try_with(|c| c.set(c.get() + b));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let off = offset(l.align());
        let Some(total) = l.size().checked_add(off + TAIL) else { return std::ptr::null_mut() };
        if total > 1 << 32 {
            return std::ptr::null_mut();
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(HEAD) as *mut Head;
        *h = Head { magic: LIVE, size: l.size() as u64, off: off as u64, pad: MUTED.try_with(|c| c.get()).unwrap_or(false) as u64 };
        std::ptr::write_bytes(p, FRESH, l.size().min(1 << 16));
        std::ptr::write_bytes(p.add(l.size()), TAIL_BYTE, TAIL);
        if (*h).pad == 0 {
            account(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut Head;
        if (*h).magic == FREED {
            die("double free");
        }
        if (*h).magic != LIVE {
            die("free of a pointer that was not allocated (or header overwritten)");
        }
        let size = (*h).size as usize;
        if size != l.size() {
            die("freed with a different size than allocated");
        }
        if (*h).off as usize != offset(l.align()) {
            die("freed with a different alignment than allocated");
        }
        for i in 0..TAIL {
            if *p.add(size + i) != TAIL_BYTE {
                die("write past the end of a block");
            }
        }
        if (*h).pad == 0 {
            account(-(size as i64), -1);
        }
        check_watch(p, size);
        if (*h).pad == 0 {
            check_needles(p, size);
        }
        (*h).magic = FREED;
        std::ptr::write_bytes(p, DEAD, size.min(1 << 16));
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let q = &mut *std::ptr::addr_of_mut!(Q);
        while q.count == RING || (q.count > 0 && q.bytes + size > RING_BYTES) {
            let (op, os, oa) = q.slots[q.head];
            q.head = (q.head + 1) % RING;
            q.count -= 1;
            q.bytes -= os;
            release(op as *mut u8, os, oa);
        }
        let tail = (q.head + q.count) % RING;
        q.slots[tail] = (p as usize, size, l.align());
        q.count += 1;
        q.bytes += size;
        LOCK.store(false, Ordering::Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let h = p.sub(HEAD) as *mut Head;
    if (*h).magic != FREED {
        die("write to the header of a freed block");
    }
    for i in 0..size.min(1 << 12) {
        if *p.add(i) != DEAD {
            die("write after free");
        }
    }
    (*h).magic = 0;
    let off = offset(align);
    System.dealloc(
        p.sub(off),
        Layout::from_size_align_unchecked(size + off + TAIL, align.max(16)),
    );
}
