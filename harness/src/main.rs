use harness::runner;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("run") => runner::run(&a[1..]),
        Some("shard") => runner::shard(&a[1..]),
        Some("one") => runner::one(&a[1..]),
        Some("shrink") => runner::shrink_cmd(&a[1..]),
        Some("probe") => harness::probe::run(&a[1]),
        Some("replay") => runner::replay(&a[1..]),
        _ => {
            eprintln!("usage: harness run PROP TIER | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
