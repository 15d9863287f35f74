//! C25–C28: editor sessions, source tools, translation.
mod session;
mod english;
mod meaning;
mod source;
mod text;

fn main() {
    let which = std::env::args().nth(1).unwrap_or_default();
    let rep = vkit::Report::new();
    match which.as_str() {
        "C25" => session::c25(&rep),
        "C28" => meaning::c28(&rep),
        "C27" => english::c27(&rep),
        "C26" => source::c26(&rep),
        x => panic!("no such check {x}"),
    }
    rep.finish();
}
