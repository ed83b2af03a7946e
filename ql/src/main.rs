mod d;
mod cal;
mod period;
mod interp;
mod sched;
mod mk;
mod param;
mod bond;
mod deriv;
mod engine;
mod res;
mod mc;
mod portfolio;
mod gate;
use vmon::Run;
fn main() {
    std::env::set_var("RUST_BACKTRACE", "0"); std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let prop = std::env::args().nth(1).unwrap_or_default();
    let mut run = Run::from_env(&prop);
    run.boost(match prop.as_str() { "C26" | "C28" => 30.0, "C25" => 25.0, "C20" | "C34" | "C21" | "C40" => 10.0, "C33" | "C22" => 8.0, "C32" | "C24" => 6.0, "C29" | "C27" => 5.0, "C38" | "C41" | "C43" => 4.0, "C30" | "C31" | "C39" => 3.0, "C35" | "C36" | "C37" => 2.0, _ => 1.0 });
    match prop.as_str() {
        "C20" => cal::c20(&mut run),
        "C21" => cal::c21(&mut run),
        "C22" => cal::c22(&mut run),
        "C24" => sched::c24(&mut run),
        "C25" => interp::c25(&mut run),
        "C26" => interp::c26(&mut run),
        "C27" => param::c27(&mut run),
        "C28" => param::c28(&mut run),
        "C29" => param::c29(&mut run),
        "C30" => param::c30(&mut run),
        "C31" => bond::c31(&mut run),
        "C32" => deriv::c32(&mut run),
        "C33" => deriv::c33(&mut run),
        "C34" => deriv::c34(&mut run),
        "C35" => engine::c35(&mut run),
        "C36" => engine::c36(&mut run),
        "C37" => engine::c37(&mut run),
        "C38" => res::c38(&mut run),
        "C40" => res::c40(&mut run),
        "C41" => portfolio::c41(&mut run),
        "C42" => mc::c42(&mut run),
        "C43" => gate::c43(&mut run),
        "C39" => bond::c39(&mut run),
        "C23" => period::c23(&mut run),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    run.finish()
}
