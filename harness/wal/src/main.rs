//! Monitors for the wallet library and the second command line program.
mod cbf;
#[allow(dead_code)]
#[path = "../../cli/src/cli.rs"]
mod cli;
#[path = "../../cli/src/node.rs"]
mod node;
mod pay;
#[allow(dead_code)]
#[path = "../../cli/src/scan.rs"]
mod scan;
#[allow(dead_code)]
#[path = "../../cli/src/spend.rs"]
mod spend;
mod wallet;
#[allow(dead_code)]
#[path = "../../idx/src/world.rs"]
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C28" => wallet::c28(),
        "C29" => scan::c29(),
        "C30" => pay::c30(),
        "C31" => cbf::c31(),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(code);
}
