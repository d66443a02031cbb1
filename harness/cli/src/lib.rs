#[path = "../../common/sym.rs"]
pub mod sym;

mod cmd;
mod files;
mod fsys;

/// The program.
#[allow(dead_code, unused_imports)]
pub mod app {
    include!(concat!(env!("OUT_DIR"), "/app.rs"));
}

harness! {
    h_listing => files::listing,
    h_listing_long => files::listing_long,
    h_listing_wide => files::listing_wide,
    h_absent => files::absent,
    h_lookup => files::lookup,
    h_contents => files::contents,
    h_commands => cmd::commands,
    h_names => cmd::names,
    h_program => cmd::program,
}
