#![allow(clippy::all)]
pub mod algo;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c17;
#[allow(dead_code)] pub mod cli;
pub mod gen;
pub mod mutat;
pub mod procs;
pub mod run;
pub mod sync;

macro_rules! entries {
    ($($name:ident => $f:path,)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($name), $f as fn())),*];
    };
}
entries! {
    vh_c02_sync => sync::c02, vh_c03_sync => sync::c03, vh_c04_sync => sync::c04, vh_c05_sync => sync::c05, vh_c06_sync => sync::c06, vh_c08_sync => sync::c08, vh_c14_sync => sync::c14, vh_c15_sync => sync::c15,
    vh_c16_cli_ok => procs::cli_ok, vh_c16_cli_fail => procs::cli_fail, vh_c16_cli_out => procs::cli_out, vh_c16_cli_invalid => procs::cli_invalid, vh_c16_cli_number => procs::cli_number, vh_c16_cli_stop => procs::cli_stop, vh_c16_config => procs::config,
    vh_p_smoke => procs::smoke,
    vh_c07_pair => procs::c07_pair, vh_c04_pair => procs::c04_pair, vh_c06_pair => procs::c06_pair, vh_c07_triple => procs::c07_triple, vh_c04_triple => procs::c04_triple, vh_c06_triple => procs::c06_triple, vh_c07_report_fails => procs::c07_report_fails,
    vh_c14_files => procs::c14_files,
    vh_c14_files_stop => procs::c14_files_stop,
    vh_c15_docs => procs::c15_docs,
    vh_c15_bytes => procs::c15_bytes,
    vh_c15_edit => procs::c15_edit,
    vh_c15_huge => procs::c15_huge,
    vh_c15_wide => procs::c15_wide,
    vh_c14_files_range => procs::c14_files_range,
    vh_c14_values => sync::c14_values,
    vh_c16_docs => procs::c16_docs,
    vh_c16_edit => procs::c16_edit,
    vh_c06_docs => procs::c06_docs,
    vh_c06_edit => procs::c06_edit,
    vh_c16_cli_duration => procs::cli_duration,
    vh_c16_argv => procs::c16_argv,
    vh_c16_unlaunchable => procs::c16_unlaunchable,
    vh_c12_sub2 => c12::sub2,
    vh_c12_array2 => c12::array2,
    vh_c12_map2 => c12::map2,
    vh_c12_mapnest2 => c12::mapnest2,
    vh_c12_variant2 => c12::variant2,
    vh_c12_optional2 => c12::optional2,
    vh_c12_leaf8 => c12::leaf8,
    vh_c03_budget => run::c03_budget,
    vh_c03_stop => run::c03_stop,
    vh_c05_conc => run::c05_conc,
    vh_c05_batch => run::c05_batch,
    vh_c05_stop => run::c05_stop,
    vh_c01_children => procs::c01_children, vh_c02_children => procs::c02_children, vh_c03_children => procs::c03_children, vh_c05_children => procs::c05_children, vh_c08_children => procs::c08_children, vh_c02_children2 => procs::c02_children2, vh_c05_children2 => procs::c05_children2, vh_c08_children2 => procs::c08_children2,
    vh_c06_fail => run::c06_fail, vh_c04_again => run::c04_again, vh_c06_again => run::c06_again, vh_c15_again => run::c15_again, vh_c05_wide => sync::c05_wide, vh_c03_wide => sync::c03_wide,
    vh_c06_target => run::c06_target,
    vh_c04_term => run::c04_term,
    vh_c04_target => run::c04_target,
    vh_c04_batch => run::c04_batch,
    vh_c08_small => run::c08_small,
    vh_c14_stream => run::c14_stream,
    vh_c02_small => run::c02_small,
    vh_c02_target => run::c02_target,
    vh_c02_extreme => run::c02_extreme,
    vh_c15_extreme => run::c15_extreme,
    vh_c02_extreme_sample => run::c02_extreme_sample,
    vh_c15_extreme_sample => run::c15_extreme_sample,
    vh_c02_streak => run::c02_streak,
    vh_c02_orders => run::c02_orders,
    vh_c02_streak_sample => run::c02_streak_sample,
    vh_c03_streak => run::c03_streak,
    vh_c03_orders => run::c03_orders,
    vh_c03_streak_sample => run::c03_streak_sample,
    vh_c04_streak => run::c04_streak,
    vh_c04_orders => run::c04_orders,
    vh_c04_streak_sample => run::c04_streak_sample,
    vh_c04_target_sample => run::c04_target_sample,
    vh_c14_batch => run::c14_batch,
    vh_c02_unbounded => run::c02_unbounded,
    vh_c03_unbounded => run::c03_unbounded,
    vh_c04_unbounded => run::c04_unbounded,
    vh_c05_unbounded => run::c05_unbounded,
    vh_c06_unbounded => run::c06_unbounded,
    vh_c08_unbounded => run::c08_unbounded,
    vh_c14_unbounded => run::c14_unbounded,
    vh_c15_unbounded => run::c15_unbounded,
    vh_c05_streak => run::c05_streak,
    vh_c05_orders => run::c05_orders,
    vh_c05_streak_sample => run::c05_streak_sample,
    vh_c06_streak => run::c06_streak,
    vh_c06_orders => run::c06_orders,
    vh_c06_streak_sample => run::c06_streak_sample,
    vh_c08_streak => run::c08_streak,
    vh_c08_orders => run::c08_orders,
    vh_c08_streak_sample => run::c08_streak_sample,
    vh_c14_streak => run::c14_streak,
    vh_c14_orders => run::c14_orders,
    vh_c14_streak_sample => run::c14_streak_sample,
    vh_c15_streak => run::c15_streak,
    vh_c15_orders => run::c15_orders,
    vh_c15_streak_sample => run::c15_streak_sample,
    vh_c15_run => run::c15_run,
    vh_c01_real => mutat::c01_real,
    vh_c01_real_scale => mutat::c01_real_scale,
    vh_c01_int => mutat::c01_int,
    vh_c01_discrete => mutat::c01_discrete,
    vh_c01_containers => mutat::c01_containers,
    vh_c01_map => mutat::c01_map,
    vh_c01_mapnest => mutat::c01_mapnest,
    vh_c01_crossmap => mutat::c01_crossmap,
    vh_c01_init => mutat::c01_init,
    vh_c01_history_map => mutat::c01_history_map,
    vh_c01_history_small => mutat::c01_history_small,
    vh_c01_history_nest => mutat::c01_history_nest,
    vh_c01_history_real => mutat::c01_history_real,
    vh_c13_zero => mutat::c13_zero,
    vh_c13_map => mutat::c13_map,
    vh_c13_map3 => mutat::c13_map3,
    vh_c13_sure => mutat::c13_sure,
    vh_c13_nest => mutat::c13_nest,
    vh_c13_switch => mutat::c13_switch, vh_c13_born => mutat::c13_born,
    vh_c13_sure_map => mutat::c13_sure_map,
    vh_c13_guess => mutat::c13_guess,
    vh_c02_evict => run::c02_evict,
    vh_c02_evict2 => run::c02_evict2,
    vh_c02_sample => run::c02_sample,
    vh_c05_sample => run::c05_sample,
    vh_c08_sample => run::c08_sample,
    vh_c14_sample => run::c14_sample,
    vh_c03_long => run::c03_long,
    vh_c01_run => run::c01_run,
    vh_c01_long => run::c01_long,
    vh_c02_reeval => algo::c02_reeval,
    vh_c05_reeval => algo::c05_reeval,
    vh_c08_reeval => algo::c08_reeval,
    vh_c08_reeval3 => algo::c08_reeval3,
    vh_c02_cap => algo::c02_cap,
    vh_c14_meta => algo::meta_step,
    vh_c02_reeval3 => algo::c02_reeval3,
    vh_c02_reeval_deep => algo::c02_reeval_deep,
    vh_c05_reeval_deep => algo::c05_reeval_deep,
    vh_c08_reeval_deep => algo::c08_reeval_deep,
    vh_c02_sample_deep => run::c02_sample_deep,
    vh_c05_sample_deep => run::c05_sample_deep,
    vh_c08_sample_deep => run::c08_sample_deep,
    vh_c11_round_leaf => c11::round_leaf,
    vh_c11_round_sub => c11::round_sub,
    vh_c11_round_array => c11::round_array,
    vh_c11_round_map => c11::round_map,
    vh_c11_round_mapnest => c11::round_mapnest,
    vh_c11_round_choice => c11::round_choice,
    vh_c11_near_leaf => c11::near_leaf,
    vh_c11_near_sub => c11::near_sub,
    vh_c11_near_array => c11::near_array,
    vh_c11_near_map => c11::near_map,
    vh_c11_near_mapnest => c11::near_mapnest,
    vh_c11_near_choice => c11::near_choice,
    vh_c11_near_two => c11::near_two,
    vh_c11_any_leafs => c11::any_leafs,
    vh_c11_any_deep => c11::any_deep,
    vh_c11_guess_run => c11::guess_run,
    vh_c11_same_run => c11::same_run,
    vh_c11_same_run_many => c11::same_run_many,
    vh_c11_same_run_long => c11::same_run_long,
    vh_c11_text => c11::text,
    vh_c11_text_int => c11::text_int,
    vh_c11_text_real => c11::text_real,
    vh_c11_text_keys => c11::text_keys,
    vh_c09_small => c09::small,
    vh_c09_stopped => c09::stopped,
    vh_c09_sampled => c09::sampled,
    vh_c09_sampled_more => c09::sampled_more,
    vh_c09_long_more => c09::long_more,
    vh_c09_long => c09::long,
    vh_c09_long_kinds => c09::long_kinds,
    vh_c09_evict => c09::evict,
    vh_c09_guess => c09::guess,
    vh_c09_in_turn => c09::in_turn,
    vh_c10_number => c10::number,
    vh_c10_sizes => c10::sizes,
    vh_c10_array => c10::array,
    vh_c10_choices => c10::choices,
    vh_c10_flags => c10::flags,
    vh_c10_odd_docs => c10::odd_docs,
    vh_c10_scopes => c10::scopes,
    vh_c10_keywords => c10::keywords,
    vh_c10_gen_sub => c10::gen_sub,
    vh_c10_gen_array => c10::gen_array,
    vh_c10_gen_choice => c10::gen_choice,
    vh_c10_gen_leaf => c10::gen_leaf,
    vh_c10_gen_two => c10::gen_two,
    vh_c10_gen_wrapped => c10::gen_wrapped,
    vh_c10_soup => c10::soup,
    vh_c10_initial => c10::initial,
    vh_c10_number_real => c10::number_real,
    vh_c10_text_any => c10::text_any,
    vh_c10_text_edit => c10::text_edit,
    vh_c17_select => c17::select,
    vh_c17_select_leaf => c17::select_leaf,
    vh_c17_select_population => c17::select_population,
    vh_c17_live_any => c17::live_any,
    vh_c17_live_map => c17::live_map,
    vh_c17_live_deep => c17::live_deep,
    vh_c17_live_many => c17::live_many,
    vh_c17_varies_real => c17::varies_real,
    vh_c17_varies_int => c17::varies_int,
    vh_c17_varies_nested => c17::varies_nested,
    vh_c17_mix => c17::mix,
    vh_c17_battery_orders => c17::battery_orders,
    vh_c17_battery_orders_many => c17::battery_orders_many,
    vh_c17_battery_long => c17::battery_long,
}
