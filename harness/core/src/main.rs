//! Monitors for the sending, receiving, encoding, PSBT and DLEQ parts.
mod codes;
mod dleqp;
mod psbt;
mod recv;
mod robust;
mod send;
mod util;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C01" => send::c01(),
        "C02" => send::c02(),
        "C03" => recv::c03(),
        "C04" => recv::c04(),
        "C05" => recv::c05(),
        "C06" => recv::c06(),
        "C07" => codes::c07(),
        "C08" => codes::c08(),
        "C10" => recv::c10(),
        "C11" => psbt::c11(),
        "C12" => psbt::c12(),
        "C13" => psbt::c13(),
        "C14" => send::c14(),
        "C15" => dleqp::c15(),
        "C16" => dleqp::c16(),
        "C17" => robust::c17(),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(code);
}
