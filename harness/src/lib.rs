pub mod rt;
pub mod el;
pub mod build;
pub mod idx;
pub mod search;
pub mod save;
pub mod reorder;
pub mod lists;
pub mod vecs;
pub mod rw;
pub mod text;

pub type Entry = (&'static str, extern "C-unwind" fn());
macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => { pub static ENTRIES: &[Entry] = &[$((stringify!($f), $m::$f)),*]; } }
entries! { build::h_build, build::h_steps, build::h_exact, build::h_layers, build::h_select, search::h_search, save::h_save, save::h_fault, save::h_fault_edge, save::h_fault_rw, save::h_full, save::h_crash, save::h_damage, reorder::h_reorder, reorder::h_permute, reorder::h_permute_big, reorder::h_reorder_big, save::h_save_big, search::h_search_big, lists::h_ids, lists::h_gaps, lists::h_offsets, vecs::h_vectors, vecs::h_vectors_bad, vecs::h_terms, vecs::h_sum, vecs::h_angular, vecs::h_angular_any, vecs::h_sumdist, vecs::h_normalize, vecs::h_quantize, vecs::h_idist, rw::h_rw, rw::h_rw_exact, rw::h_race, text::h_text, text::h_text_big, text::h_range, text::h_shards, text::h_embed, text::h_keys }
