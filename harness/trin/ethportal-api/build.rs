fn main() {
    for (k, v) in [
        ("VERGEN_GIT_SHA", "0000000000000000000000000000000000000000"),
        ("VERGEN_GIT_SHA_SHORT", "0000000"),
        ("TRIN_VERSION", "v0.0.0"),
        ("TRIN_BUILD_OPERATING_SYSTEM", "linux"),
        ("TRIN_BUILD_ARCHITECTURE", "x86_64"),
        ("VERGEN_RUSTC_SEMVER", "1.87.0"),
        ("TRIN_FULL_VERSION", "v0.0.0-0000000 linux-x86_64 rustc1.87.0"),
    ] {
        println!("cargo:rustc-env={k}={v}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
