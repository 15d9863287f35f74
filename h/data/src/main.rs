mod crdt;
mod sched;

fn main() {
    let which = std::env::args().nth(1).expect("property id");
    let rep = vkit::Report::new();
    match which.as_str() {
        "C01" => crdt::c01(&rep),
        "C02" => crdt::c02(&rep),
        "C03" => crdt::c03(&rep),
        "C04" => sched::c04(&rep),
        "C05" => sched::c05(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
