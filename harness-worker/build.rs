use std::path::Path;

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_REPO");
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".to_string());
    let path = Path::new(&repo).join("git-branchless-test/src/worker.rs");
    println!("cargo:rerun-if-changed={}", path.display());
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(
        Path::new(&out).join("gen.rs"),
        format!("#[allow(dead_code)]\n#[path = {path:?}]\nmod worker;\n"),
    )
    .unwrap();
}
