mod callers;
mod error;
mod exact;
mod history;
mod integ;
mod iter;
mod jump;
mod laws;
mod memory;
#[cfg(feature = "full")]
mod serial;
mod shape;
mod features;
mod grid;
mod param;
mod rules;
mod special;
mod total;
mod wraps;

use mc_core::run::Run;

#[global_allocator]
static MEMORY: memory::Counting = memory::Counting;

fn main() {
    if let Ok(h) = std::env::var("MC_HISTORY") {
        mc_core::run::install_quiet_panic_hook();
        return history::child(&h);
    }
    let r = Run::from_args();
    match r.prop.as_str() {
        "C01" => exact::c01(&r),
        "C02" => exact::c02(&r),
        "C03" => exact::c03(&r),
        "C04" => exact::c04(&r),
        "C05" => exact::c05(&r),
        "C06" => shape::c06(&r),
        "C07" => integ::c07(&r),
        "C08" => integ::c08(&r),
        "C11" => iter::c11(&r),
        "C12" => param::c12(&r),
        "C13" => param::c13(&r),
        #[cfg(feature = "full")]
        "C14" => serial::c14(&r),
        "C15" => history::c15(&r),
        "C16" => special::c16(&r),
        "C17" => features::c17(&r),
        "C18" => laws::c18(&r),
        "C19" => laws::c19(&r),
        "C21" => error::c21(&r),
        "C22" => jump::c22(&r),
        "C20" => total::c20(&r),
        "C23" => memory::c23(&r),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    }
    r.finish();
}
