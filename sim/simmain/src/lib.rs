//! The real `main` of the program, callable in-process.
#[allow(dead_code, unused)]
mod program {
    include!(concat!(env!("OUT_DIR"), "/main.rs"));
}

/// Runs `main` and returns the exit status it leads to.
pub fn run() -> i32 {
    let code = program::__sim_main();
    if code == std::process::ExitCode::SUCCESS {
        return 0;
    }
    let text = format!("{:?}", code);
    let digits: String = text.chars().filter(|c| c.is_ascii_digit()).collect();
    digits.parse().unwrap_or(1)
}
