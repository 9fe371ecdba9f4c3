// Bakes the case file named by PGN_CASES into the binary (for Miri, which runs isolated).
fn main() {
    println!("cargo:rerun-if-env-changed=PGN_CASES");
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("cases.txt");
    match std::env::var("PGN_CASES") {
        Ok(p) => {
            println!("cargo:rerun-if-changed={p}");
            std::fs::copy(p, out).unwrap();
        }
        Err(_) => std::fs::write(out, "").unwrap(),
    }
}
