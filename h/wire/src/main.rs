mod hostile;
mod pads;
mod trip;
mod vals;

#[global_allocator]
static ALLOC: vkit::alloc::Monitor = vkit::alloc::Monitor;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("child") {
        hostile::child(&args[2]);
        return;
    }
    let rep = vkit::Report::new();
    match args[1].as_str() {
        "C22" => trip::c22(&rep),
        "C23" => hostile::c23(&rep),
        "C24" => pads::c24(&rep),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(2);
        }
    }
    rep.finish();
}
