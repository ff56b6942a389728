//! Monitors for the light client oracles: the filter subscriber and the tweak server subscriber.
mod filters;
mod server;
mod tweaks;
#[allow(dead_code)]
#[path = "../../idx/src/world.rs"]
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    // no proxy between the client and the tweak server of the monitors
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    let code = match id.as_str() {
        "C24" => filters::c24(),
        "C25" => tweaks::c25(),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(code);
}
