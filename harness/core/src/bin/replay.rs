
include!("../../../common/replay.rs");

fn harnesses() -> &'static [(&'static str, extern "C-unwind" fn())] {
    hcore::HARNESSES
}

fn early() {}
