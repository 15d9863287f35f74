mod cnf;
mod form;
mod prove;
mod sat;

fn main() {
    let which = std::env::args().nth(1).expect("property id");
    let rep = vkit::Report::new();
    match which.as_str() {
        "C18" => sat::check(&rep),
        "C19" => form::check(&rep),
        "C20" => prove::check(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
