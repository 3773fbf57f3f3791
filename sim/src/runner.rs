//! Seeded search over simulated runs: workers, supervisor, minimisation, replay
//! files and evidence.
use crate::core::{self, Livelock, Mode, Res, Run, Viol};
use crate::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub max_steps: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub run: Run,
    pub sim_ns: u64,
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            // The first panic is the cause; later ones happen while unwinding.
            if g.is_none() {
                *g = Some((loc, msg));
            }
        }
    }));
}

struct Mirror(*mut u32, usize);
unsafe impl Send for Mirror {}

pub fn exec(p: &'static Prop, mode: Mode, env_seed: u64, trace: bool, mirror: Option<(*mut u32, usize)>) -> Outcome {
    let mirror = mirror.map(|(a, b)| Mirror(a, b));
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            *LAST_PANIC.lock().unwrap() = None;
            core::begin(mode, env_seed, trace, p.max_steps);
            if let Some(m) = mirror {
                let m = m;
                core::set_mirror(m.0, m.1);
            }
            let r = std::panic::catch_unwind(AssertUnwindSafe(p.run));
            let sim_ns = core::now().saturating_sub(core::idle_total());
            let run = core::end();
            let (mut viol, mut harness) = (None, None);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(v)) => viol = Some(v),
                Err(payload) => {
                    let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
                    if payload.is::<Livelock>() {
                        viol = Some(Viol {
                            class: "livelock".into(),
                            detail: format!("no end after {} simulator steps", run.max_steps),
                        });
                    } else if loc.starts_with("src/") && msg.starts_with("vzsim:") {
                        harness = Some(format!("harness panic at {loc}: {msg}"));
                    } else {
                        // Also when the panic is in the harness: something the library
                        // returned contradicts what the scenario relies on.
                        viol = Some(Viol { class: format!("panic@{}", loc), detail: format!("panicked at {loc}: {msg}") });
                    }
                }
            }
            // Unusable counters must not hide behind `Send`: Run holds a raw pointer.
            SendBox(Outcome { viol, harness, run, sim_ns })
        })
        .expect("spawn");
    h.join().expect("run thread").0
}
struct SendBox(Outcome);
unsafe impl Send for SendBox {}

pub fn seed_for(base: u64, id: &str, idx: u64) -> u64 {
    let mut s = base ^ 0x1234_5678_9abc_def0;
    for b in id.bytes() {
        s = core::splitmix(&mut s) ^ b as u64;
    }
    s ^= idx.wrapping_mul(0x9E3779B97F4A7C15);
    core::splitmix(&mut s)
}

fn shrink(mut best: Vec<u32>, mut try_it: impl FnMut(&[u32]) -> bool, max_tries: usize, wall: Duration) -> Vec<u32> {
    let start = Instant::now();
    let mut tries = 0;
    let mut ok = |c: &[u32], tries: &mut usize| {
        *tries += 1;
        try_it(c)
    };
    let done = |tries: usize| tries >= max_tries || start.elapsed() > wall;
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let mut improved = false;
        // Delete or zero chunks, large to small.
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if done(tries) {
                    return best;
                }
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if ok(&c, &mut tries) {
                    best = c;
                    improved = true;
                    continue;
                }
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    if ok(&c, &mut tries) {
                        best = c;
                        improved = true;
                    }
                }
                i = j;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Make single values smaller.
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u32;
            while best[i] > 0 && lo < best[i] {
                if done(tries) {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if ok(&c, &mut tries) {
                    best = c;
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if !improved || done(tries) {
            return best;
        }
    }
}

fn write_replay(path: &Path, p: &Prop, seed: u64, choices: &[u32], v: &Viol, run: Option<&Run>, orig: usize) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n", json::esc(p.id)));
    s.push_str(&format!(" \"seed\": {seed},\n"));
    s.push_str(&format!(" \"class\": {},\n", json::esc(&v.class)));
    s.push_str(&format!(" \"detail\": {},\n", json::esc(&v.detail)));
    s.push_str(&format!(" \"hash\": {},\n", run.map_or(0, |r| r.hash)));
    s.push_str(&format!(" \"choices_before_minimising\": {orig},\n"));
    s.push_str(&format!(
        " \"choices\": [{}],\n",
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
    ));
    if let Some(r) = run {
        s.push_str(&format!(
            " \"faults\": {{{}}},\n",
            r.faults.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v)).collect::<Vec<_>>().join(", ")
        ));
        s.push_str(" \"trace\": [\n");
        let t = r.trace.clone().unwrap_or_default();
        s.push_str(&t.iter().map(|l| format!("  {}", json::esc(l))).collect::<Vec<_>>().join(",\n"));
        s.push_str("\n ],\n");
    }
    s.push_str(&format!(" \"replay\": {}\n}}\n", json::esc(&format!("vzsim replay {}", path.display()))));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    std::fs::write(path, s).expect("write replay");
}

/// `vzsim worker ID BASE START COUNT STRIDE OUTDIR SLOT WALL`
pub fn worker(p: &'static Prop, args: &[String]) -> i32 {
    let n: Vec<u64> = args[..4].iter().map(|s| s.parse().unwrap()).collect();
    let (base, start, count, stride) = (n[0], n[1], n[2], n[3]);
    let out = PathBuf::from(&args[4]);
    let slot: u64 = args[5].parse().unwrap();
    let wall = Duration::from_secs(args[6].parse().unwrap());
    let mut prog = std::fs::OpenOptions::new().write(true).open(out.join("progress")).expect("progress");
    let begin = Instant::now();
    let mut st = Stats::default();
    let mut idx = start;
    let mut hashes: Vec<u64> = Vec::new();
    while idx < count {
        if begin.elapsed() > wall {
            st.capped = 1;
            break;
        }
        prog.seek(SeekFrom::Start(slot * 8)).unwrap();
        prog.write_all(&(idx + 1).to_le_bytes()).unwrap();
        let seed = seed_for(base, p.id, idx);
        let o = exec(p, Mode::Rng(seed), seed, false, None);
        if let Some(h) = o.harness {
            eprintln!("HARNESS ERROR property={} seed={} {}", p.id, seed, h);
            return 3;
        }
        if let Some(v) = o.viol {
            let class = v.class.clone();
            let orig = o.run.choices.len();
            let first = exec(p, Mode::Replay(o.run.choices.clone(), 0), seed, false, None);
            if first.viol.as_ref().map(|v| &v.class) != Some(&class) {
                // The code under test itself is not deterministic (it read memory or
                // state no seam controls). Report what was seen, unminimised.
                eprintln!("property={} seed={} violation {:?} does not replay from its choices", p.id, seed, class);
                let path = out.join(format!("viol-{slot}.json"));
                write_replay(&path, p, seed, &o.run.choices, &v, Some(&o.run), orig);
                st.runs += 1;
                st.write(&out.join(format!("stats-{slot}")));
                return 1;
            }
            let mut tick = 0u64;
            let best = shrink(
                o.run.choices,
                |c| {
                    // Keep the supervisor's hang detector informed.
                    tick += 1;
                    prog.seek(SeekFrom::Start(slot * 8)).unwrap();
                    prog.write_all(&((tick << 40) | (idx + 1)).to_le_bytes()).unwrap();
                    let o = exec(p, Mode::Replay(c.to_vec(), 0), seed, false, None);
                    o.harness.is_none() && o.viol.map(|v| v.class) == Some(class.clone())
                },
                3000,
                Duration::from_secs(15),
            );
            let fin = exec(p, Mode::Replay(best.clone(), 0), seed, true, None);
            let fv = fin.viol.clone().unwrap_or(v);
            let path = out.join(format!("viol-{slot}.json"));
            write_replay(&path, p, seed, &best, &fv, Some(&fin.run), orig);
            st.runs += 1;
            st.write(&out.join(format!("stats-{slot}")));
            return 1;
        }
        st.add(&o);
        hashes.push(o.run.hash);
        if idx % 64 == 0 {
            // Same seed, same execution: compare the event-log hash of a second run.
            let o2 = exec(p, Mode::Rng(seed), seed, false, None);
            st.det += 1;
            if o2.run.hash != o.run.hash || o2.run.choices != o.run.choices {
                // The code under test has a source of nondeterminism no seam controls.
                eprintln!("WARNING property={} seed={} is not deterministic", p.id, seed);
                st.nondet += 1;
            }
        }
        idx += stride;
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.join(format!("hashes-{slot}")), hb).unwrap();
    st.write(&out.join(format!("stats-{slot}")));
    0
}

#[derive(Default)]
pub struct Stats {
    runs: u64,
    checked: u64,
    nontrivial: u64,
    sim_ns: u128,
    steps: u64,
    events: u64,
    det: u64,
    nondet: u64,
    capped: u64,
    max_choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
}
impl Stats {
    fn add(&mut self, o: &Outcome) {
        self.runs += 1;
        self.checked += o.run.checked;
        if o.run.checked > 0 && o.run.events > 0 {
            self.nontrivial += 1;
        }
        self.sim_ns += o.sim_ns as u128;
        self.steps += o.run.steps;
        self.events += o.run.events;
        self.max_choices = self.max_choices.max(o.run.choices.len() as u64);
        for (k, v) in &o.run.faults {
            *self.faults.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &o.run.probes {
            *self.probes.entry(k.to_string()).or_insert(0) += v;
        }
    }
    fn write(&self, path: &Path) {
        let mut s = String::new();
        for (k, v) in [
            ("runs", self.runs as u128),
            ("checked", self.checked as u128),
            ("nontrivial", self.nontrivial as u128),
            ("sim_ns", self.sim_ns),
            ("steps", self.steps as u128),
            ("events", self.events as u128),
            ("det", self.det as u128),
            ("nondet", self.nondet as u128),
            ("capped", self.capped as u128),
            ("max_choices", self.max_choices as u128),
        ] {
            s.push_str(&format!("n {k} {v}\n"));
        }
        for (k, v) in &self.faults {
            s.push_str(&format!("f {k} {v}\n"));
        }
        for (k, v) in &self.probes {
            s.push_str(&format!("p {k} {v}\n"));
        }
        std::fs::write(path, s).unwrap();
    }
    fn merge(&mut self, s: &str) {
        for l in s.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() != 3 {
                continue;
            }
            let v: u128 = w[2].parse().unwrap_or(0);
            match w[0] {
                "n" => match w[1] {
                    "runs" => self.runs += v as u64,
                    "checked" => self.checked += v as u64,
                    "nontrivial" => self.nontrivial += v as u64,
                    "sim_ns" => self.sim_ns += v,
                    "steps" => self.steps += v as u64,
                    "events" => self.events += v as u64,
                    "det" => self.det += v as u64,
                    "nondet" => self.nondet += v as u64,
                    "capped" => self.capped += v as u64,
                    "max_choices" => self.max_choices = self.max_choices.max(v as u64),
                    _ => {}
                },
                "f" => *self.faults.entry(w[1].into()).or_insert(0) += v as u64,
                "p" => *self.probes.entry(w[1].into()).or_insert(0) += v as u64,
                _ => {}
            }
        }
    }
}

fn self_exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

enum End {
    Code(i32),
    Crash(String),
    Hang,
}

fn wait_child(mut c: Child, limit: Duration) -> End {
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            return match st.code() {
                Some(c) => End::Code(c),
                None => {
                    use std::os::unix::process::ExitStatusExt;
                    End::Crash(format!("signal {}", st.signal().unwrap_or(0)))
                }
            };
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Maps `path` as a shared array of u32.
pub fn map_mirror(path: &str) -> (*mut u32, usize) {
    let cap = 1 << 20;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(cap * 4).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            (cap * 4) as usize,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    (p.cast(), cap as usize)
}

fn read_choices(path: &Path) -> Vec<u32> {
    let b = std::fs::read(path).unwrap_or_default();
    let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let n = w.first().copied().unwrap_or(0) as usize;
    w.get(1..1 + n).map(|s| s.to_vec()).unwrap_or_default()
}

fn run_choices_child(p: &Prop, seed: u64, choices: &[u32], dir: &Path, limit: Duration, show: bool) -> End {
    let f = dir.join("try-choices");
    std::fs::write(&f, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    let c = Command::new(self_exe())
        .args(["choices", p.id, &seed.to_string(), f.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(if show { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("spawn");
    wait_child(c, limit)
}

/// A run crashed or hung its worker: get its choices, minimise, write a replay file.
fn hunt(p: &'static Prop, seed: u64, dir: &Path, path: &Path) -> Option<Viol> {
    let mf = dir.join("mirror");
    let c = Command::new(self_exe())
        .args(["mirror", p.id, &seed.to_string(), mf.to_str().unwrap()])
        .stdout(Stdio::null())
        .spawn()
        .expect("spawn");
    let end = wait_child(c, Duration::from_secs(20));
    let (class, what) = match end {
        End::Code(_) => return None,
        End::Crash(s) => ("crash", format!("the process died with {s} (see stderr for the reason)")),
        End::Hang => ("hang", "the client made no progress for 20 s of real time without any I/O or wait".to_string()),
    };
    let choices = read_choices(&mf);
    let orig = choices.len();
    let limit = Duration::from_secs(if class == "hang" { 3 } else { 10 });
    let best = shrink(
        choices,
        |c| match run_choices_child(p, seed, c, dir, limit, false) {
            End::Code(_) => false,
            End::Crash(_) => class == "crash",
            End::Hang => class == "hang",
        },
        if class == "hang" { 25 } else { 300 },
        Duration::from_secs(60),
    );
    let v = Viol { class: class.into(), detail: what };
    write_replay(path, p, seed, &best, &v, None, orig);
    Some(v)
}

/// Runs `first, first + step, ..= last` in one child process; true if it dies or hangs.
fn seq_dies(p: &Prop, base: u64, first: u64, step: u64, last: u64, dir: &Path) -> bool {
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("progress"), [0u8; 8]).unwrap();
    let c = Command::new(self_exe())
        .args(["worker", p.id])
        .args([base, first, last + 1, step].map(|n| n.to_string()))
        .arg(dir)
        .args(["0", "120"])
        .stdout(Stdio::null())
        .spawn()
        .expect("spawn");
    !matches!(wait_child(c, Duration::from_secs(150)), End::Code(_))
}

/// A worker died at run `idx`, which alone completes: find how many of the runs before it
/// in the same process it takes.
fn hunt_seq(p: &'static Prop, base: u64, idx: u64, step: u64, dir: &Path, path: &Path) -> bool {
    let most = idx / step;
    let mut back = 1u64;
    loop {
        let n = back.min(most);
        let first = idx - n * step;
        if seq_dies(p, base, first, step, idx, &dir.join("seq")) {
            std::fs::write(
                path,
                format!(
                    "{{\n \"property\": {},\n \"class\": \"crash_seq\",\n \"detail\": \"consecutive runs in one process end in a crash\",\n \"seed\": {base},\n \"first\": {first},\n \"step\": {step},\n \"last\": {idx},\n \"choices\": []\n}}\n",
                    json::esc(p.id)
                ),
            )
            .unwrap();
            return true;
        }
        if n == most {
            return false;
        }
        back *= 4;
    }
}

pub fn check(p: &'static Prop, tier: &str, base: u64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let count = std::env::var("VZSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
        p.thorough
    } else {
        p.quick
    });
    let wall = if thorough { 1500 } else { 240 };
    let jobs: u64 = std::env::var("VZSIM_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64))
        .min(16);
    let outdir = verif.join("out");
    let dir = outdir.join(format!("work-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("mkdir");
    std::fs::write(dir.join("progress"), vec![0u8; jobs as usize * 8]).unwrap();
    let mut kids: Vec<Option<(Child, u64, Instant)>> = (0..jobs)
        .map(|j| {
            let c = Command::new(self_exe())
                .args([
                    "worker".to_string(),
                    p.id.to_string(),
                    base.to_string(),
                    j.to_string(),
                    count.to_string(),
                    jobs.to_string(),
                    dir.to_str().unwrap().to_string(),
                    j.to_string(),
                    wall.to_string(),
                ])
                .spawn()
                .expect("spawn worker");
            Some((c, 0, Instant::now()))
        })
        .collect();
    let mut viols: Vec<(PathBuf, String)> = Vec::new();
    let mut suspect: Option<u64> = None;
    let mut harness_err = false;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        let mut pb = Vec::new();
        std::fs::File::open(dir.join("progress")).unwrap().read_to_end(&mut pb).unwrap();
        for (j, k) in kids.iter_mut().enumerate() {
            let Some((c, last, since)) = k else { continue };
            let raw = u64::from_le_bytes(pb[j * 8..j * 8 + 8].try_into().unwrap());
            if raw != *last {
                *last = raw;
                *since = Instant::now();
            }
            let cur_idx = (raw & ((1 << 40) - 1)).saturating_sub(1);
            match c.try_wait() {
                Ok(Some(st)) => {
                    match st.code() {
                        Some(0) => {}
                        Some(1) => viols.push((dir.join(format!("viol-{j}.json")), String::new())),
                        Some(_) => harness_err = true,
                        None => suspect = Some(cur_idx),
                    }
                    *k = None;
                }
                Ok(None) => {
                    if since.elapsed() > Duration::from_secs(20) {
                        let _ = c.kill();
                        let _ = c.wait();
                        suspect = Some(cur_idx);
                        *k = None;
                    }
                }
                Err(_) => {
                    harness_err = true;
                    *k = None;
                }
            }
        }
        if !viols.is_empty() || suspect.is_some() || harness_err {
            // Let workers that are minimising finish first; stop the others.
            if suspect.is_some() || harness_err || viols.len() >= 1 {
                for k in kids.iter_mut() {
                    if let Some((c, _, _)) = k {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    *k = None;
                }
            }
        }
    }
    let replay_path = outdir.join(format!("replay-{}-{}.json", p.id, base));
    let mut code = 0;
    let mut nviol = 0;
    if let Some((vp, _)) = viols.first() {
        let s = std::fs::read_to_string(vp).expect("violation file");
        std::fs::write(&replay_path, &s).unwrap();
        println!(
            "violation class: {}\n{}",
            json::get_str(&s, "class").unwrap_or_default(),
            json::get_str(&s, "detail").unwrap_or_default()
        );
        println!("VIOLATION property={} replay={}", p.id, replay_path.display());
        nviol = 1;
        code = 1;
    } else if let Some(idx) = suspect {
        let seed = seed_for(base, p.id, idx);
        match hunt(p, seed, &dir, &replay_path) {
            Some(v) => {
                println!("violation class: {}\n{}", v.class, v.detail);
                println!("VIOLATION property={} replay={}", p.id, replay_path.display());
                nviol = 1;
                code = 1;
            }
            None if hunt_seq(p, base, idx, jobs, &dir, &replay_path) => {
                println!("violation class: crash_seq\nthe process died or hung after several runs in a row (memory was corrupted)");
                println!("VIOLATION property={} replay={}", p.id, replay_path.display());
                nviol = 1;
                code = 1;
            }
            None => {
                eprintln!("HARNESS ERROR property={} a worker died at run {idx} (seed {seed}) but the run completes alone", p.id);
                code = 3;
            }
        }
    } else if harness_err {
        code = 3;
    }
    // Evidence.
    let mut st = Stats::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for j in 0..jobs {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("stats-{j}"))) {
            st.merge(&s);
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hashes-{j}"))) {
            distinct.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    let mut samples = Vec::new();
    if code == 0 {
        for i in 0..3u64 {
            let seed = seed_for(base, p.id, i);
            let o = exec(p, Mode::Rng(seed), seed, true, None);
            let t = o.run.trace.unwrap_or_default();
            let more = t.len().saturating_sub(30);
            let mut lines: Vec<String> = t.into_iter().take(30).collect();
            if more > 0 {
                lines.push(format!("... {more} more events"));
            }
            samples.push((seed, lines));
        }
    } else {
        samples.push((base, vec!["stopped at the violation or error; see the replay file".into()]));
    }
    for k in st.probes.keys().filter_map(|k| k.strip_prefix("known_")) {
        let what = include_str!("../../KNOWN_FINDINGS.md")
            .lines()
            .find_map(|l| l.strip_prefix(&format!("known: property={} ", p.id)).filter(|l| l.contains(k)));
        println!("KNOWN-FINDING: property={} {}", p.id, what.unwrap_or(k));
    }
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json::esc(k), v)).collect::<Vec<_>>().join(", "))
    };
    let list = |l: &[&str]| format!("[{}]", l.iter().map(|s| json::esc(s)).collect::<Vec<_>>().join(", "));
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"oracle_comparisons\": {},\n  \"runs_with_oracle_comparisons\": {},\n  \"simulated_seconds\": {:.3},\n  \"simulator_steps\": {},\n  \"events_logged\": {},\n  \"seeds_per_hour\": {:.0},\n  \"determinism_rechecks_equal\": {},\n  \"determinism_rechecks_unequal\": {},\n  \"longest_choice_sequence\": {},\n  \"stopped_by_wall_limit\": {},\n  \"faults_injected\": {},\n  \"situations_reached\": {},\n  \"distinct_measure\": \"distinct hashes of the full event log (every read, write, delay, fault, delivery and result with its virtual time)\",\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"samples\": [\n{}\n  ]\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json::esc(p.id),
        json::esc(tier),
        base,
        st.runs,
        (distinct.len() as u64).min(st.nontrivial),
        json::esc(p.rule),
        st.checked,
        st.nontrivial,
        st.sim_ns as f64 / 1e9,
        st.steps,
        st.events,
        st.runs as f64 / search_s * 3600.0,
        st.det - st.nondet,
        st.nondet,
        st.max_choices,
        st.capped > 0,
        map(&st.faults),
        map(&st.probes),
        list(p.real),
        list(p.stub),
        samples
            .iter()
            .map(|(s, l)| format!(
                "   {{\"seed\": {s}, \"trace\": [{}]}}",
                l.iter().map(|x| json::esc(x)).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",\n"),
        list(p.assumptions),
        nviol,
        t0.elapsed().as_secs_f64(),
    );
    std::fs::create_dir_all(verif.join("evidence")).unwrap();
    std::fs::write(verif.join("evidence").join(format!("{}.json", p.id)), ev).unwrap();
    println!(
        "{}: {} runs, {} distinct, {} comparisons, {:.0} simulated s, {:.1} s wall, {}",
        p.id,
        st.runs,
        distinct.len(),
        st.checked,
        st.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64(),
        if code == 0 { "held" } else { "NOT held or error" }
    );
    code
}

pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let id = json::get_str(&s, "property").expect("property");
    let seed = json::get_u64(&s, "seed").expect("seed");
    let class = json::get_str(&s, "class").expect("class");
    let hash = json::get_u64(&s, "hash").unwrap_or(0);
    let choices = json::get_u32s(&s, "choices").expect("choices");
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    if class == "crash_seq" {
        let dir = std::env::temp_dir().join(format!("vzsim-replay-{}", std::process::id()));
        let n = |k| json::get_u64(&s, k).expect("replay field");
        let again = seq_dies(p, seed, n("first"), n("step"), n("last"), &dir);
        let _ = std::fs::remove_dir_all(&dir);
        println!("{}", if again { "reproduced" } else { "not reproduced" });
        if again {
            println!("VIOLATION property={id} replay={path}");
        }
        return again as i32;
    }
    if class == "crash" || class == "hang" {
        let dir = std::env::temp_dir().join(format!("vzsim-replay-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let end = run_choices_child(p, seed, &choices, &dir, Duration::from_secs(20), true);
        let _ = std::fs::remove_dir_all(&dir);
        let again = match end {
            End::Code(_) => false,
            End::Crash(_) => class == "crash",
            End::Hang => class == "hang",
        };
        println!("{}", if again { "reproduced" } else { "not reproduced" });
        if again {
            println!("VIOLATION property={id} replay={path}");
        }
        return again as i32;
    }
    let o = exec(p, Mode::Replay(choices, 0), seed, true, None);
    for l in o.run.trace.iter().flatten() {
        println!("{l}");
    }
    match o.viol {
        Some(v) => {
            println!("violation class: {}\n{}", v.class, v.detail);
            println!(
                "{}",
                if v.class == class && o.run.hash == hash { "reproduced exactly" } else { "a different execution" }
            );
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("no violation ({:?})", o.harness);
            if o.harness.is_some() {
                3
            } else {
                0
            }
        }
    }
}
