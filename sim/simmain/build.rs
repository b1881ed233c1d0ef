// Takes the program's real entry point and makes it callable as a function.
use std::{env, fs, path::Path};

fn main() {
    let src = "/repo/src/main.rs";
    println!("cargo:rerun-if-changed={}", src);
    let text = fs::read_to_string(src).expect("read main.rs");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        // modules of the program lie next to its main file
        let head = t.trim_start_matches("pub ").trim_start_matches("pub(crate) ");
        if let Some(m) = head.strip_prefix("mod ").and_then(|m| m.trim_end().strip_suffix(';')) {
            let m = m.trim();
            let file = format!("/repo/src/{}.rs", m);
            let file = if Path::new(&file).exists() { file } else { format!("/repo/src/{}/mod.rs", m) };
            out.push_str(&format!("#[path = \"{}\"]\n", file));
        }
        out.push_str(line);
        out.push('\n');
    }
    out.push_str("\npub fn __sim_main() -> std::process::ExitCode { std::process::Termination::report(main()) }\n");
    let dest = Path::new(&env::var("OUT_DIR").unwrap()).join("main.rs");
    fs::write(dest, out).expect("write");
}
