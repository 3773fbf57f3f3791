//! Thread-level simulation of vinezombie's concurrent parts, to be run inside Miri.
//!
//! `mirisim PROPERTY SEED FIRST COUNT [--skip a,b,..] [--show]`
//!
//! Runs scenarios FIRST..FIRST+COUNT. A scenario (which threads exist and which operations each
//! performs) is a function of SEED and its number alone. The schedule, the values weak memory
//! lets each load see and spurious failures are decided by Miri from `-Zmiri-seed`.
//! Prints `S n` (stderr) before each scenario and, at the end, `H` with the hash of each event log,
//! `T` with totals and `O` with the number of operations in the last plan.
mod c09;
mod c10;
mod c11;
mod core;
mod pool;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().map(|s| s.as_str()).unwrap_or("");
    if id == "noop" || id.is_empty() {
        return;
    }
    let n = |i: usize| args[i].parse::<u64>().expect("number");
    let (seed, first, count) = (n(1), n(2), n(3));
    let mut show = false;
    let mut it = args[4..].iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--skip" => core::set_skip(it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--show" => show = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let mut out = String::from("H");
    let mut ops = 0;
    for i in first..first + count {
        eprintln!("S {i}");
        let rng = core::Rng::new(core::mix(core::mix(seed, i), id.as_bytes()[2] as u64));
        core::begin(show);
        match id {
            "C09" => c09::run(rng),
            "C10" => c10::run(rng),
            "C11" => c11::run(rng),
            _ => panic!("unknown property {id}"),
        }
        let (hash, n) = core::end();
        ops = n;
        out.push(' ');
        for k in (0..16).rev() {
            out.push(b"0123456789abcdef"[(hash >> (4 * k)) as usize & 15] as char);
        }
    }
    println!("{out}");
    core::totals();
    println!("O {ops}");
    pool::stop();
}
