//! Monitors for the two generations of the silent payment index.
mod bal;
mod labels;
mod v1;
mod v2;
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C09" => labels::c09(),
        "C18" => v1::c18(),
        "C19" => v1::c19(),
        "C20" => v2::c20(),
        "C21" => v2::c21(),
        "C22" => v2::c22(),
        "C23" => bal::c23(),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(code);
}
