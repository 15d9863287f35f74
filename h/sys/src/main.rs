mod crypto;
mod interpose;
mod journal;
mod messaging;
mod vfs;

fn main() {
    let which = std::env::args().nth(1).expect("property id");
    if which == "C08" {
        vfs::drop_privileges();
    }
    let rep = vkit::Report::new();
    match which.as_str() {
        "C06" => journal::c06(&rep),
        "C07" => journal::c07(&rep),
        "C08" => vfs::c08(&rep),
        "C09" => messaging::c09(&rep),
        "C10" => crypto::c10(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
