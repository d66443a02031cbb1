//! plotline, plus the one trait the interval plugin imports from it that it no longer has. Nothing
//! checked here depends on that trait; it is what lets the plugin's crate compile.

pub use real::*;

pub mod property {
    pub use real::property::*;

    pub trait Extractor<Src> {
        type Target;

        fn all(&self, source: &Src) -> Vec<Self::Target>;
    }
}
