use std::{env, fs, path::Path};
fn main() {
    // every `pub extern "C" fn h_*` in src/*.rs becomes callable by name from the replay driver
    let mut s = String::from("pub fn entry(n: &str) -> Option<extern \"C\" fn()> { match n {\n");
    let mut files: Vec<_> = fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    files.sort();
    for f in files {
        let m = f.file_stem().unwrap().to_str().unwrap().to_string();
        println!("cargo:rerun-if-changed={}", f.display());
        if m == "lib" || m == "sym" { continue; }
        for l in fs::read_to_string(&f).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("#[no_mangle] ").unwrap_or(l.trim()).strip_prefix("pub extern \"C\" fn h_") {
                let n = r.split('(').next().unwrap();
                s.push_str(&format!("\"h_{}\" => Some(crate::{}::h_{} as extern \"C\" fn()),\n", n, m, n));
            }
        }
    }
    s.push_str("_ => None } }\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("entries.rs"), s).unwrap();
}
