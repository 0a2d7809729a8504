//! Build script of crates whose modules the drivers have to reach: copies the crate's sources and
//! declares every module public.
use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).expect("directory");
    for e in fs::read_dir(from).expect("sources") {
        let e = e.expect("entry");
        let (src, dst) = (e.path(), to.join(e.file_name()));
        if e.file_type().expect("type").is_dir() {
            copy(&src, &dst);
        } else if src.extension().is_some_and(|x| x == "rs") {
            fs::write(dst, public(&fs::read_to_string(src).expect("source"))).expect("write");
        } else {
            fs::copy(src, dst).expect("copy");
        }
    }
}

fn public(text: &str) -> String {
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        let name = t.strip_prefix("pub(crate) mod ").or(t.strip_prefix("mod "));
        match name.filter(|n| n.trim_end().ends_with(';')) {
            Some(n) => out += &format!("pub mod {n}\n"),
            None => {
                out += line;
                out += "\n";
            }
        }
    }
    out
}

fn main() {
    let here = env::var("CARGO_MANIFEST_DIR").expect("manifest dir");
    let root = fs::read_to_string(format!("{here}/root.txt")).expect("root.txt");
    let dir = Path::new(root.trim());
    println!("cargo:rerun-if-changed={here}/root.txt");
    println!("cargo:rerun-if-changed={}", dir.display());
    let out = Path::new(&env::var("OUT_DIR").expect("out dir")).join("src");
    if out.exists() {
        fs::remove_dir_all(&out).expect("old copy");
    }
    copy(dir, &out);
    // The root is pulled in with `include!`, which takes no inner attributes.
    let lib = fs::read_to_string(out.join("lib.rs")).expect("lib.rs");
    let lib: String = lib
        .lines()
        .filter(|l| !l.starts_with("#![") && !l.starts_with("//!"))
        .map(|l| format!("{l}\n"))
        .collect();
    fs::write(out.join("lib.rs"), lib).expect("write");
}
