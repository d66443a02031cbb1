//! The program's `main` is private to its binary: a copy of its source, with a way in.
use std::{env, fs, path::Path};

fn main() {
    let dir = "/repo/plotline-cli/src";
    let from = format!("{dir}/main.rs");
    println!("cargo::rerun-if-changed={dir}");
    let mut text = String::new();
    for l in fs::read_to_string(from).unwrap().lines() {
        if l.starts_with("//!") || l.starts_with("#![") {
            continue;
        }
        // Modules of its own are where they were.
        let bare = l.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(m) = bare.strip_prefix("mod ").and_then(|m| m.trim_end().strip_suffix(';')) {
            let file = [format!("{dir}/{m}.rs"), format!("{dir}/{m}/mod.rs")].into_iter().find(|f| Path::new(f).exists());
            text += &format!("#[path = {:?}]\n", file.unwrap_or_default());
        }
        text += &l.replace("crate::", "crate::app::");
        text.push('\n');
    }
    text += "
pub fn run_program() -> bool {
    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS
}
";
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("app.rs");
    fs::write(out, text).unwrap();
}
