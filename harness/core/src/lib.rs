#[path = "../../common/sym.rs"]
pub mod sym;

mod conc;
mod data;
mod model;
mod ops;
mod res;
mod tx;
mod wide;

harness! {
    h_commit => tx::commit,
    h_commit_long => tx::commit_long,
    h_commit_mixed => tx::commit_mixed,
    h_chain => tx::chain,
    h_deep => tx::deep,
    h_many => tx::many,
    h_rich => tx::rich,
    h_rollback => tx::rollback,
    h_kept => tx::kept,
    h_rollback_long => tx::rollback_long,
    h_overlay => tx::overlay,
    h_overlay_long => tx::overlay_long,
    h_nested => tx::nested,
    h_siblings => tx::siblings,
    h_interleaved_siblings => tx::interleaved_siblings,
    h_panics => tx::panics,
    h_panic_in_guard => tx::panic_in_guard,
    h_save => ops::save,
    h_save_after_panic => ops::save_after_panic,
    h_delete => ops::delete,
    h_delete_missing => ops::delete_missing,
    h_sequence => ops::sequence,
    h_cascade => ops::cascade,
    h_dispatch => ops::dispatch,
    h_schedules => ops::schedules,
    h_dispatch_long => ops::dispatch_long,
    h_save_long => ops::save_long,
    h_spread => ops::spread,
    h_sequence_long => ops::sequence_long,
    h_target => ops::target,
    h_registry => res::registry,
    h_registry_long => res::registry_long,
    h_types => res::types,
    h_install => res::install,
    h_sharing => res::sharing,
    h_tuples => res::tuples,
    h_places => res::places,
    h_spied => res::spied,
    h_mixed => res::mixed,
    h_res_panics => res::panics,
    h_graph_map => data::graph_map,
    h_graph_long => data::graph_long,
    h_graph_ids => data::graph_ids,
    h_traverse_long => data::traverse_long,
    h_traverse => data::traverse,
    h_traverse_ctx => data::traverse_ctx,
    h_proxy_once => data::proxy_once,
    h_lazy => data::lazy,
    h_lazy_long => data::lazy_long,
    h_lazy_nodes => data::lazy_nodes,
    h_wide_commit => wide::commit,
    h_wide_overlay => wide::overlay,
    h_wide_deep => wide::deep,
    h_wide_many => wide::many,
    h_wide_dispatch => wide::dispatch,
    h_wide_graph => wide::graph,
    h_wide_edges => wide::edges,
    h_thread_atomic => conc::atomic,
    h_thread_rmw => conc::rmw,
    h_thread_operations => conc::operations,
    h_thread_isolated => conc::isolated,
    h_thread_skew => conc::skew,
    h_thread_panics => conc::panics,
    h_thread_guards => conc::guards,
    h_thread_resources => conc::resources,
    h_thread_lazy => conc::lazy,
    h_thread_proxy => conc::proxy,
}
