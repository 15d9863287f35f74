mod aot;
mod dev;
mod engines;
mod gen;
mod idioms;
mod make;

fn main() {
    let which = std::env::args().nth(1).expect("property id");
    if which.starts_with(|c: char| c.is_ascii_lowercase()) {
        return dev::main();
    }
    let rep = vkit::Report::new();
    match which.as_str() {
        "C11" => engines::c11(&rep),
        "C12" => engines::c12(&rep),
        "C21" => aot::c21(&rep),
        "C13" => engines::c13(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
