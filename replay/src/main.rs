//! Looks for inputs on which the real code differs from what a property says.
//!   replay sweep PROP SEED MILLIS OUT   random inputs for so long; writes OUT and exits 1 on a violation
//!   replay case PROP SEED INDEX         one input of the sweep again
mod asm;
mod cli;
mod data;
mod dates;
mod eval;
mod files;
mod gen;
mod globs;
mod prog;
mod props;
mod read;
mod rng;
mod run;
mod safe;
mod same;
mod words;
use rng::Rng;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub struct Fail { pub input: String, pub expected: String, pub got: String }
thread_local! { pub static INPUT: std::cell::RefCell<String> = Default::default(); static PANIC: std::cell::RefCell<String> = Default::default(); }
/// Records the input being tried, for when the code panics.
pub fn trying(s: impl Into<String>) { INPUT.with(|i| *i.borrow_mut() = s.into()) }
pub fn same(input: &str, expected: &str, got: &str) -> Result<(), Fail> {
    if expected == got { Ok(()) } else { Err(Fail { input: input.into(), expected: expected.into(), got: got.into() }) }
}
static INDEX: AtomicU64 = AtomicU64::new(0);
static SINCE: AtomicU64 = AtomicU64::new(0);

fn run(prop: &str, seed: u64, index: u64) -> Result<(), Fail> {
    let mut r = Rng::new(seed ^ index.wrapping_mul(0x2545F4914F6CDD1D));
    let size = if index < 2000 { (index / 250) as usize } else { 8 };
    trying("");
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::check(prop, &mut r, size))) {
        Ok(x) => x,
        Err(_) => Err(Fail { input: INPUT.with(|i| i.borrow().clone()), expected: "no panic".into(), got: PANIC.with(|p| format!("panic: {}", p.borrow())) }),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (cmd, prop, seed) = (a[1].as_str(), a[2].clone(), a[3].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    if !props::known(&prop) { println!("no sweep for {prop}"); return }
    let millis: u64 = a[4].parse().unwrap();
    let out = a.get(5).cloned();
    let start = Instant::now();
    let (p, o) = (prop.clone(), out.clone());
    let single = cmd == "case";
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut i = if single { millis } else { 0 };
        loop {
            INDEX.store(i, Ordering::SeqCst);
            SINCE.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
            if let Some(o) = &o { if std::env::var("REPLAY_TRACE").is_ok() { let _ = std::fs::write(format!("{o}.at"), i.to_string()); } }
            if let Err(f) = run(&p, seed, i) { return (i, Some(f)) }
            i += 1;
            if single || start.elapsed() > Duration::from_millis(millis) { return (i, None) }
        }
    }).unwrap();
    loop {
        if h.is_finished() {
            let (i, f) = h.join().unwrap();
            match f {
                None => { println!("{prop}: {} inputs, no difference", if single { 1 } else { i }); return },
                Some(f) => report(&prop, seed, i, &f.input, &f.expected, &f.got, &out),
            }
        }
        let now = start.elapsed().as_millis() as u64 + 1;
        let since = SINCE.load(Ordering::SeqCst);
        if since > 0 && now > since + 20_000 {
            report(&prop, seed, INDEX.load(Ordering::SeqCst), "(the input of this case)", "an end", "no end within 20 s", &out);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
fn report(prop: &str, seed: u64, i: u64, input: &str, expected: &str, got: &str, out: &Option<String>) -> ! {
    let t = format!("property {prop} is violated\nreplay: replay case {prop} {seed} {i}\ninput:\n{input}\nexpected:\n{expected}\ngot:\n{got}\n");
    print!("{t}");
    if let Some(o) = out { std::fs::write(o, t).unwrap() }
    std::process::exit(1)
}
