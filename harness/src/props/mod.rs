pub mod a_results;
pub mod b_stage2;
pub mod c_stage1;
pub mod common;
pub mod d_parity;
pub mod e_checkpoint;
pub mod f_resume;
pub mod g_bounds;
pub mod h_observer;
pub mod i_config;
pub mod j_faults;
pub mod k_display;
pub mod l_log;
use crate::fw::Ctx;

pub type PropFn = fn(&Ctx);
pub fn find(id: &str) -> Option<(&'static str, PropFn)> {
    Some(match id {
        "C01" => ("exploration", a_results::c01 as PropFn),
        "C02" => ("exploration", a_results::c02),
        "C03" => ("exploration", b_stage2::c03),
        "C04" => ("exploration", b_stage2::c04),
        "C15" => ("exploration", b_stage2::c15),
        "C05" => ("exploration", c_stage1::c05),
        "C06" => ("exploration", c_stage1::c06),
        "C07" => ("exploration", c_stage1::c07),
        "C08" => ("exploration", d_parity::c08),
        "C09" => ("exploration", e_checkpoint::c09),
        "C10" => ("exploration", e_checkpoint::c10),
        "C11" => ("exploration", e_checkpoint::c11),
        "C12" => ("exploration", e_checkpoint::c12),
        "C13" => ("exploration", f_resume::c13),
        "C14" => ("exploration", f_resume::c14),
        "C16" => ("exploration", g_bounds::c16),
        "C17" => ("exploration", g_bounds::c17),
        "C18" => ("exploration", h_observer::c18),
        "C19" => ("exploration", h_observer::c19),
        "C20" => ("exploration", i_config::c20),
        "C21" => ("fault_enumeration", j_faults::c21),
        "C22" => ("exploration", j_faults::c22),
        "C26" => ("exploration", k_display::c26),
        "C27" => ("exploration", l_log::c27),
        "C23" => ("exploration", i_config::c23),
        _ => return None,
    })
}
pub fn child(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("save") => e_checkpoint::child_save(&args[1..]),
        Some("log") => l_log::child_log(&args[1..]),
        Some("read") => e_checkpoint::child_read(),
        _ => 2,
    }
}
