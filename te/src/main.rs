mod book;
mod krx;
mod malformed;
mod numeric;
mod clock;
mod ids;
mod counters;
mod child;
mod features;
mod logs;
mod spinq;
mod records;
mod net;
use vmon::Run;
fn families(n: &str) -> Option<child::Fam> {
    Some(match n {
        "decoders" => malformed::decoders,
        "fields" => malformed::fields,
        "sq_model" => spinq::model,
        "sq_race" => spinq::race,
        _ => return None,
    })
}
fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let args: Vec<String> = std::env::args().collect();
    if prop == "W" { child::worker(&args[2..], families) }
    if prop == "L" { logs::child(&args[2..]) }
    let mut run = Run::from_env(&prop);
    run.boost(match prop.as_str() { "C13" => 8.0, "C07" => 6.0, "C14" => 5.0, "C01" | "C03" | "C04" => 4.0, "C02" => 2.0, "C06" => 1.5, _ => 1.0 });
    match prop.as_str() {
        "C01" => book::c01(&mut run),
        "C02" => book::c02(&mut run),
        "C03" => book::c03(&mut run),
        "C04" => krx::c04(&mut run),
        "C05" => malformed::c05(&mut run),
        "C06" => numeric::c06(&mut run),
        "C07" => clock::c07(&mut run),
        "C08" => ids::c08(&mut run),
        "C09" => spinq::c09(&mut run),
        "C10" => logs::c10(&mut run),
        "C12" => features::c12(&mut run),
        "C11" => counters::c11(&mut run),
        "C13" => records::c13(&mut run),
        "C14" => net::c14(&mut run),
        p => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    run.finish()
}
