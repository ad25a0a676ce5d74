//! vx: extracts functions and types from /repo, edits in contracts, writes Verus files.
//!   vx <proofs dir> <repo root> <out dir> <annotation file>...
//! For each `#group` one file <crate>__<group>.rs plus <crate>__<group>.json.
mod ann;
mod edit;
mod gen;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx <proofs> <repo> <out> <annotation file>...");
        std::process::exit(2);
    }
    let mut rc = 0;
    for f in &a[4..] {
        match ann::load(&a[1], f) {
            Ok(u) => gen::emit(&a[1], &a[2], &a[3], &u),
            Err(e) => {
                eprintln!("{}: {}", f, e);
                rc = 2;
            }
        }
    }
    std::process::exit(rc);
}
