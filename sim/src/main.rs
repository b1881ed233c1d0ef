#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod driver;
mod exec;
mod gen;
mod interpose;
mod kernel;
mod oracle;
mod rng;
mod s3;
mod scenario;
mod simfs;
mod world;

fn main() {
    // the argument vector of this process doubles as that of the simulated
    // ones, so it has to be long enough
    let args: Vec<String> = std::env::args().collect();
    if interpose::max_args() < 48 {
        use std::os::unix::process::CommandExt;
        let mut a: Vec<String> = args[1..].to_vec();
        while a.len() < 60 {
            a.push(String::new());
        }
        let e = std::process::Command::new("/proc/self/exe").args(a).exec();
        eprintln!("cannot restart: {}", e);
        std::process::exit(2);
    }
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).filter(|s| !s.is_empty()).collect();
    let code = match args[1..] {
        ["check", p] => driver::check(p),
        ["replay", f] => driver::replay(f, false),
        ["replay", f, "-v"] => driver::replay(f, true),
        ["selftest"] => driver::selftest(400),
        ["selftest", n] => driver::selftest(n.parse().expect("number")),
        _ => {
            eprintln!("usage: artesim check <property> | replay <file> [-v] | selftest [n]");
            2
        }
    };
    std::process::exit(code);
}
