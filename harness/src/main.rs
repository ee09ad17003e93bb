//! Runtime verification harness for chridou/metrix. One sub command per property.
#![allow(clippy::all)]
#![allow(dead_code)]
pub mod clock;
pub mod common;
mod props;
pub mod rt;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "san-run" {
        return props::san::san_run();
    }
    rt::init(&id);
    if clock::interposed() {
        // the interposed clock must really be the one the crate sees
        clock::local(1_000_000 * clock::NS);
        let a = std::time::Instant::now();
        clock::advance(7 * clock::NS);
        let b = std::time::Instant::now();
        clock::real();
        if b - a != std::time::Duration::from_secs(7) {
            rt::harness_error("the clock is not interposed");
        }
    }
    match id.as_str() {
        "C01" => props::queue::c01(),
        "C02" => props::queue::c02(),
        "C03" => props::queue::c03(),
        "C04" => props::backend::c04(),
        "C05" => props::queue::c05(),
        "C06" => props::queue::c06(),
        "C07" => props::driver::c07(),
        "C08" => props::driver::c08(),
        "C09" => props::driver::c09(),
        "C10" => props::driver::c10(),
        "C11" => props::driver::c11(),
        "C12" => props::routing::c12(),
        "C13" => props::routing::c13(),
        "C14" => props::instr::c14(),
        "C15" => props::instr::c15(),
        "C16" => props::instr::c16(),
        "C17" => props::instr::c17(),
        "C18" => props::instr::c18(),
        "C19" => props::timed::c19(),
        "C20" => props::timed::c20(),
        "C21" => props::timed::c21(),
        "C22" => props::routing::c22(),
        "C23" => props::snap::c23(),
        "C24" => props::snap::c24(),
        "C25" => props::snap::c25(),
        "C26" => props::snap::c26(),
        "C27" => props::extreme::c27(),
        "C28" => props::san::c28(),
        "C29" => props::backend::c29(),
        "C30" => props::backend::c30(),
        "C31" => props::config::c31(),
        other => rt::harness_error(&format!("unknown property '{}'", other)),
    }
    rt::write_evidence(0);
    println!("{}: held on everything explored", id);
}
