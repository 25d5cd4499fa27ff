// A copy of the command's source that can be included as a module (no inner attributes or comments).
use std::{env, fs, path::Path};
fn main() {
    let dir = Path::new("/repo/twiggy");
    println!("cargo:rerun-if-changed=/repo/twiggy");
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    let t = fs::read_to_string(dir.join("twiggy.rs")).unwrap();
    let t: String = t.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).map(|l| format!("{}\n", l)).collect();
    fs::write(out.join("cli.rs"), t).unwrap();
    for f in fs::read_dir(dir).unwrap().flatten() {
        let p = f.path();
        if p.extension().map_or(false, |e| e == "rs") && !p.ends_with("twiggy.rs") {
            fs::create_dir_all(out.join("command")).unwrap();
            fs::copy(&p, out.join(p.file_name().unwrap())).unwrap();
            fs::copy(&p, out.join("command").join(p.file_name().unwrap())).unwrap();
        }
    }
    // the JavaScript API, likewise; an items value can also be made from an item graph
    println!("cargo:rerun-if-changed=/repo/wasm-api");
    let dir = Path::new("/repo/wasm-api");
    let t = fs::read_to_string(dir.join("wasm-api.rs")).unwrap();
    let t: String = t.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).map(|l| format!("{}\n", l.replace("twiggy_analyze", "twiggy_analyze_api").replace("twiggy_opt", "twiggy_opt_api"))).collect();
    fs::write(out.join("api.rs"), t).unwrap();
    fs::create_dir_all(out.join("api")).unwrap();
    for f in fs::read_dir(dir).unwrap().flatten() {
        let p = f.path();
        if p.extension().map_or(false, |e| e == "rs") && !p.ends_with("wasm-api.rs") {
            fs::copy(&p, out.join("api").join(p.file_name().unwrap())).unwrap();
        }
    }
}
