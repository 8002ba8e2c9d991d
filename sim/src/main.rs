//! ressa-sim: deterministic simulation of RESSA. See /verif/DESIGN.md.
mod about;
mod damage;
mod debug;
mod drive;
mod findings;
mod props;
mod scn;
mod search;
mod sim;

#[global_allocator]
static ALLOC: sim::Counting = sim::Counting;

/// Run on a thread with a stack large enough for any text the simulator makes.
fn big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    sim::install();
    let code = match a.get(1).map(|s| s.as_str()).unwrap_or("") {
        "check" => search::check(&a[2..]),
        "replay" => search::replay(&a[2]),
        "worker" => big(|| search::worker(&a[2..])),
        "once" => big(|| search::once(&a[2])),
        "traces" => big(|| search::traces(&a[2..])),
        "shrink" => big(|| search::shrink(&a[2..])),
        "gen" | "cmp" | "traffic" | "p" | "one" | "survey" => big(|| debug::main(&a)),
        _ => {
            eprintln!("usage: ressa-sim check PROP | replay FILE | one PROP SEED INDEX | survey PROP SEED N | gen N SEED | cmp N SEED | p TEXT..");
            2
        }
    };
    std::process::exit(code);
}
