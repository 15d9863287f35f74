mod num;
mod time;
mod unit;
mod word;

fn main() {
    let which = std::env::args().nth(1).expect("property id");
    let rep = vkit::Report::new();
    match which.as_str() {
        "C14" => num::check(&rep),
        "C15" => time::check(&rep),
        "C16" => unit::check(&rep),
        "C17" => word::check(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
