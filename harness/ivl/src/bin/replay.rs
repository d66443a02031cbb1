
include!("../../../common/replay.rs");

fn harnesses() -> &'static [(&'static str, extern "C-unwind" fn())] {
    hivl::HARNESSES
}

fn early() {}
