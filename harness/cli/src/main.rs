//! Monitors for the command line wallet, run as a process against a stand-in node.
#[allow(dead_code)]
mod cli;
mod node;
#[allow(dead_code)]
mod scan;
mod spend;
#[allow(dead_code)]
#[path = "../../idx/src/world.rs"]
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C26" => scan::c26(),
        "C27" => spend::c27(),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(code);
}
