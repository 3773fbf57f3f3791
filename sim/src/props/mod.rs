use crate::runner::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod text;

pub const REAL_CLIENT: &[&str] = &[
    "vinezombie client: Client::run and run_tokio, connection readers and writers, codec, parser, queue, handlers, channels",
    "std BufReader and tokio BufReader, tokio current-thread runtime and timers (paused clock)",
];
pub const STUB_NET: &[&str] = &[
    "transport (in-memory byte streams with seeded faults)",
    "IRC server (scripted or reactive model)",
    "clock, sleep and randomness (interposed libc calls, virtual time)",
];

pub fn all() -> &'static [Prop] {
    static ALL: &[Prop] = &[c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP, c24::PROP];
    ALL
}
