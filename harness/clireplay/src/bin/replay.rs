
include!("../../../common/replay.rs");

fn harnesses() -> &'static [(&'static str, extern "C-unwind" fn())] {
    hcli::HARNESSES
}

/// Run again by itself, as the program.
fn early() {
    if std::env::var_os("PLOTLINE_REPLAY_PROGRAM").is_some() {
        std::process::exit(!hcli::app::run_program() as i32);
    }
}
