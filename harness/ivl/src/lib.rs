#[path = "../../common/sym.rs"]
pub mod sym;

mod date;
mod tree;

harness! {
    h_query => tree::query,
    h_query_long => tree::query_long,
    h_history => tree::history,
    h_drain => tree::drain,
    h_delete_long => tree::delete_long,
    h_bounds => tree::bounds,
    h_big => tree::big,
    h_empty => tree::empty,
    h_wide => tree::wide,
    h_date_order => date::order,
    h_date_components => date::components,
    h_date_laws => date::laws,
    h_date_interval => date::interval,
}
