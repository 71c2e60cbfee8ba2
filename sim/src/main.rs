mod core;
mod exec;
mod hash;
mod props;
mod runner;
mod sched;
mod seam;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "exec" => exec::main(),
        "child" => props::child(&a[2..]),
        "check" => runner::check(&arg(2)),
        "replay" => runner::replay(&arg(2)),
        "batch" => {
            let n = |i: usize, d: u64| arg(i).parse().unwrap_or(d);
            runner::batch(&arg(2), n(3, 1), n(4, 100), n(5, 8) as usize);
            0
        }
        _ => {
            eprintln!("usage: zkpsim check ID | replay FILE | batch ID SEED N WORKERS");
            2
        }
    };
    std::process::exit(code)
}
