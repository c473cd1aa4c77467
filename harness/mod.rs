//! In-crate harnesses. Exactly one property module is compiled per build (`--cfg vh="k07"`).
pub mod gen;
pub mod model;
pub mod sym;
include!("table.rs");

/// Native entry: `vh <harness>`; the inputs come from the file named by VREPLAY.
pub fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in HARNESSES {
        if *n == name {
            f();
            sym::done();
            return;
        }
    }
    eprintln!("unknown harness {}", name);
    std::process::exit(9);
}
