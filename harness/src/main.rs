mod api;
mod cli;
mod elf;
mod graph;
mod names;
mod options;
mod reports;
mod reports2;
mod sim;
mod smoke;
mod sym;
mod util;
mod wasm;
mod wasm2;
type H = extern "C" fn();
fn main() {
    sym::keep();
    let table: &[(&str, H)] = &[
        ("h_smoke", smoke::h_smoke),
        ("h_c08", graph::h_c08),
        ("h_c09", graph::h_c09),
        ("h_c11_graph", graph::h_c11_graph),
        ("h_c11_id", graph::h_c11_id),
        ("h_c10", reports::h_c10),
        ("h_c13", reports::h_c13),
        ("h_c14", reports::h_c14),
        ("h_c15", reports::h_c15),
        ("h_c16", reports2::h_c16),
        ("h_c17", reports2::h_c17),
        ("h_c18", reports2::h_c18),
        ("h_c18_monos", reports2::h_c18_monos),
        ("h_c18_diff", reports2::h_c18_diff),
        ("h_c18_exact", names::h_c18_exact),
        ("h_c19", names::h_c19),
        ("h_c20", names::h_c20),
        ("h_c21", names::h_c21),
        ("h_c22", names::h_c22),
        ("h_c12_plain", names::h_c12_plain),
        ("h_c12_mangled", names::h_c12_mangled),
        ("h_c25_graph", graph::h_c25_graph),
        ("h_c02_chars", wasm::h_c02_chars),
        ("h_c25_reports", names::h_c25_reports),
        ("h_wasm", wasm::h_wasm),
        ("h_c05", wasm2::h_c05),
        ("h_full", wasm2::h_full),
        ("h_c04", wasm2::h_c04),
        ("h_c26", api::h_c26),
        ("h_c23", cli::h_c23),
        ("h_c24", options::h_c24),
        ("h_c24_setters", options::h_c24_setters),
        ("h_c06", cli::h_c06),
        ("h_c07", elf::h_c07),
        ("h_c07_bytes", elf::h_c07_bytes),
    ];
    let n = std::env::args().nth(1).unwrap_or_default();
    for (k, f) in table {
        if *k == n {
            f();
            println!("COMPLETED");
            return;
        }
    }
    eprintln!("no such harness");
    std::process::exit(2);
}
